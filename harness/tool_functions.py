"""Command-line tools that read functions, spectra and indicator functions."""
import itertools
import math
import os

import pyref
from vf import H, main
from vf_tools import run, good, put, get, wipe, scratch, away, number, near, same, expect

INF = float("inf")


def functions(lengths=(2, 3, 4, 5), values=(0, 1, 2)):
    for n in lengths:
        yield from itertools.product(values, repeat=n)
    yield from itertools.permutations((-3, -1, 0, 0.5, 4))
    yield from itertools.permutations((1, 1, 2, 3, 7))
    if H.thorough:
        yield from itertools.permutations((1, 2, 3, 4, 5, 6))
        yield from itertools.product(values, repeat=6)


def chunks(items, n):
    items = list(items)
    for k in range(0, len(items), n):
        yield k, items[k:k + n]


def merges(values, sign):
    """Pairs (vertex, position of the merging edge or None) of the sublevel (1) or
    superlevel (-1) sets of a function, and the value at which each edge appears."""
    f = max if sign > 0 else min
    vertices = sorted(((i, v) for i, v in enumerate(values)), key=lambda x: sign * x[1])
    edges = sorted(((i, i + 1, f(values[i], values[i + 1])) for i in range(len(values) - 1)), key=lambda x: sign * x[2])
    return vertices, edges, pyref.components(vertices, edges)


def diagram(values, sign=1, essential=INF, diagonal=True):
    vertices, edges, pairs = merges(values, sign)
    points = [(vertices[i][1], essential if k is None else edges[k][2]) for i, k in pairs]
    return [p for p in points if diagonal or p[0] != p[1]]


def blocks(text):
    return [[tuple(map(number, line.split())) for line in b.splitlines() if line.strip()] for b in text.split("\n\n") if b.strip()]


def lines(fs, separator=" "):
    return "".join(separator.join("%g" % v for v in f) + "\n" for f in fs)


# Sub- and superlevel sets ---------------------------------------------

def explore_levels():
    for k, fs in chunks(functions(), 12):
        for superlevel, normalize, condense, how in itertools.product((0, 1), (0, 1), (0, 1), ("file", "stdin", "output", "files")):
            if how in ("stdin", "files") and (superlevel + normalize + condense) % 2 == 0:
                continue
            if not (H.mine() and H.case("levels S=%d n=%d c=%d %s %d" % (superlevel, normalize, condense, how, k))):
                continue
            options = (["-S"] if superlevel else ["--sublevels"] if normalize else []) + \
                (["--normalize"] if normalize else []) + (["-c"] if condense else [])
            separator = (" ", ",", ";", "\t", ":", ", ")[k % 6]
            if how == "file":
                r = good("function_analysis", "levels", *options, put("f.txt", lines(fs, separator)))
            elif how == "files":
                r = good("function_analysis", "levels", *options, *[put("f%d.txt" % i, lines([f], separator)) for i, f in enumerate(fs)])
            elif how == "stdin":
                r = good("function_analysis", "levels", *options, "-", stdin=lines(fs, separator))
            else:
                out = put("out.txt", "")
                r = good("function_analysis", "levels", *options, "-o", out, put("f.txt", lines(fs, separator)))
                if r:
                    H.equal(r.out, "", "levels-output", "standard output")
                    r.out = get(out)
            if r is None:
                continue
            want = []
            for f in fs:
                lo, hi = min(f), max(f)
                d = diagram(f, -1 if superlevel else 1, lo if superlevel else hi)
                if normalize and lo != hi:
                    d = [((x - lo) / (hi - lo), (y - lo) / (hi - lo)) for x, y in d]
                want.append(d)
            if condense:
                rows = [list(map(number, row)) for row in r.rows()]
                H.equal(len(rows), len(fs), "levels-count", "number of rows")
                for row, d, f in zip(rows, want, fs):
                    ps = [y - x for x, y in d]
                    ref = [min(ps), max(ps), sum(ps) / len(ps), math.sqrt(sum(p * p for p in ps))]
                    H.check(len(row) == 4 and all(near(a, b) for a, b in zip(row, ref)), "levels-condensed",
                            lambda: "%r: expected %r, got %r" % (f, ref, row))
            else:
                got = blocks(r.out)
                H.equal(len(got), len(fs), "levels-count", "number of diagrams")
                for g, d, f in zip(got, want, fs):
                    expect(g, d, "levels-diagram", "diagram of %r" % (f,))


# Spectra --------------------------------------------------------------

def explore_spectra():
    spectra = [f for f in functions((1, 2, 3, 4, 5), (0, 1, 2)) if min(f) >= 0 and sum(f) > 0]
    for f in spectra:
        for mode, normalize in itertools.product((None, "diagram", "transformation", "identity"), (False, True)):
            if mode is None and normalize:
                continue
            if not (H.mine() and H.case("spectrum %s n=%d %r" % (mode, normalize, f))):
                continue
            xs = [100 + 2.5 * i for i in range(len(f))]
            text = "# mass intensity\n\n" + "".join("%g %g\n" % p for p in zip(xs, f))
            r = good("spectral_analysis", "spectrum", *(["-m", mode] if mode and normalize else ["--mode=" + mode] if mode else []),
                     *(["-n"] if normalize else []), put("s.txt", text))
            if r is None:
                continue
            total = sum(f) if normalize else 1
            y = [v / total for v in f]
            got = [tuple(map(number, row)) for row in r.rows()]
            points = diagram(y, -1, 0)
            if mode == "identity":
                H.check(len(got) == len(f) and all(near(a[0], b) and near(a[1], c) for a, b, c in zip(got, xs, y)), "spectrum-identity",
                        lambda: "expected %r, got %r" % (list(zip(xs, y)), got))
            elif mode == "transformation":
                H.equal([round(x, 6) for x, _ in got], xs, "spectrum-transformation", "masses")
                H.check(same([(p,) for _, p in got], [(a - b,) for a, b in points]), "spectrum-transformation",
                        lambda: "expected %r, got %r" % (points, got))
                if len(set(f)) == len(f):
                    vertices, edges, pairs = merges(y, -1)
                    ref = {xs[vertices[i][0]]: vertices[i][1] - (0 if k is None else edges[k][2]) for i, k in pairs}
                    H.check(all(near(p, ref.get(x, INF)) for x, p in got), "spectrum-transformation", lambda: "expected %r, got %r" % (ref, got))
            else:
                essential = max(y)
                # The essential class is reported even if it lies on the diagonal
                expect(got, [p for p in diagram(y, -1, None) if p[1] is not None and p[0] != p[1]] + [(essential, 0)],
                       "spectrum-diagram", "diagram")


# Hierarchies ----------------------------------------------------------

def vtk(values):
    return "# vtk DataFile Version 2.0\nx\nASCII\nDATASET STRUCTURED_GRID\nDIMENSIONS %d 1 1\nPOINTS %d float\n" % (len(values), len(values)) + \
        "".join("%d 0 0\n" % i for i in range(len(values))) + "POINT_DATA %d\nSCALARS f float\nLOOKUP_TABLE default\n" % len(values) + \
        "".join("%g\n" % v for v in values)


def hierarchy(f, sign):
    """Edges of the hierarchy of a function with different values, as pairs of values of minima."""
    y = [sign * v for v in f]
    n = len(y)
    minima = [i for i in range(n) if (i == 0 or y[i - 1] > y[i]) and (i + 1 == n or y[i + 1] > y[i])]
    maxima = [i for i in range(1, n - 1) if y[i - 1] < y[i] > y[i + 1]]
    comp = {m: m for m in minima}
    last = dict(comp)
    edges = []
    for x in sorted(maxima, key=lambda i: y[i]):
        older, younger = sorted((comp[max(m for m in minima if m < x)], comp[min(m for m in minima if m > x)]), key=lambda i: y[i])
        a, b = sorted((last[older], last[younger]))
        neighbours = not any(a < m < b for m in minima)
        edges.append((f[last[older] if neighbours else older], f[younger]))
        last[older] = younger
        comp = {m: older if c == younger else c for m, c in comp.items()}
    return sorted(edges)


def orders():
    """Functions whose values are all different."""
    for n in (5, 6):
        for f in itertools.permutations(range(n)):
            if n == 5 or H.thorough or f[0] < f[-1] and f[1] != 0:
                yield f
    for low in itertools.permutations(range(4)):
        for high in itertools.permutations((10, 11, 12)):
            yield tuple(x for pair in zip(low, high) for x in pair) + (low[3],)


def explore_hierarchies():
    for k, fs in itertools.chain(chunks(functions((1, 2, 3, 4, 5), (0, 1, 2)), 6), ((k + 10000, fs) for k, fs in chunks(orders(), 12))):
        for superlevel, kind in itertools.product((0, 1), ("functions", "vtk")):
            if kind == "vtk" and min(len(f) for f in fs) < 2:
                continue
            if not (H.mine() and H.case("hierarchy S=%d %s %d" % (superlevel, kind, k))):
                continue
            wipe(scratch("away"))
            files = [put("f.txt", lines(fs))] if kind == "functions" else [put("f%d.vtk" % i, vtk(f)) for i, f in enumerate(fs)]
            r = good("interlevel_set_persistence_hierarchy", "hierarchy", *([["--superlevels"], ["-S"], ["-s", "-S"]] if superlevel else [["--sublevels"], ["-s"], [], ["-S", "-s"]])[k % (3 if superlevel else 4)], *files)
            if r is None:
                continue
            found = []
            nodes, edges, state = {}, [], 0
            for line in r.out.split("\n"):
                if ": " in line:
                    if state > 1:
                        found.append((nodes, edges))
                        nodes, edges = {}, []
                    state = 1
                    index, point = line.split(": ")
                    nodes[int(index)] = tuple(map(number, point.split()))
                elif " -- " in line:
                    edges.append(tuple(map(int, line.split(" -- "))))
                    state = 2
            if nodes:
                found.append((nodes, edges))
            sign = -1 if superlevel else 1
            expected = [diagram(f, sign, INF, False) for f in fs]
            # Hierarchies without edges are empty
            nonempty = [(f, d) for f, d in zip(fs, expected) if len(d) > 1]
            H.equal(len(found), len(nonempty), "hierarchy-count", "number of hierarchies")
            H.equal(r.out.count("\n\n\n"), len(fs), "hierarchy-separators", "separators") if all(len(d) > 1 for d in expected) else None
            for (nodes, edges), (f, d) in zip(found, nonempty):
                H.equal(sorted(nodes), list(range(len(nodes))), "hierarchy-nodes", "indices of nodes of %r" % (f,))
                expect(list(nodes.values()), d, "hierarchy-nodes", "nodes of %r" % (f,))
                children = sorted(c for _, c in edges)
                H.equal(children, sorted(i for i, p in nodes.items() if p[1] != INF), "hierarchy-edges", "children of %r" % (f,))
                if len(set(f)) == len(f):
                    H.equal(sorted((nodes.get(p, (None,))[0], nodes.get(c, (None,))[0]) for p, c in edges), hierarchy(f, sign),
                            "hierarchy-edges", "edges of %r" % (f,))
                parent = {c: p for p, c in edges}
                for c in children:
                    steps = 0
                    while c in parent and steps <= len(nodes):
                        c, steps = parent[c], steps + 1
                    H.check(nodes.get(c, (0, 0))[1] == INF, "hierarchy-edges", "%r: edges %r do not lead to the root" % (f, edges))
            classes = [list(map(int, line.split())) for line in (get(away("classes.txt")) or "").splitlines()]
            want = {}
            for i, d in enumerate(expected):
                want.setdefault(tuple(sorted(d)), []).append(i)
            H.equal(sorted(map(sorted, classes)), sorted(c for c in want.values() if len(c) > 1), "hierarchy-classes", "classes")


# Confidence bands -----------------------------------------------------

def suprema(columns):
    """Largest deviations of the means of all samples with replacement from the mean, at given points."""
    n = len(columns[0])
    result = set()
    for sample in itertools.product(range(n), repeat=n):
        result.add(round(max(abs(sum(c[i] for i in sample) - sum(c)) / n for c in columns), 9))
    return sorted(result)


def explore_bands():
    shapes = list(itertools.product((0, 1, 3), repeat=3))
    for n in (2, 3):
        for chosen in itertools.combinations(shapes[:: 1 if n == 2 else 3 if H.thorough else 5], n):
            for options in ([], ["-a", "0.5"], ["--alpha=0.01", "--n=3"], ["-n", "2"]):
                if n == 2 and len(options) == 1 and not H.thorough:
                    continue
                if not (H.mine() and H.case("smoothing %s %r" % (" ".join(options), chosen))):
                    continue
                files = [put("g%d.txt" % i, "# function\n" + "".join("%d %g\n" % p for p in zip((0, 1, 3), f))) for i, f in enumerate(chosen)]
                r = good("piecewise_linear_function_smoothing", "smoothing", *options, *files)
                if r is None:
                    continue
                got = blocks(r.out)
                H.equal(len(got), 3, "smoothing-shape", "number of functions")
                if len(got) != 3:
                    continue
                columns = list(zip(*chosen))

                def at(f, x):
                    return f[0] + (f[1] - f[0]) * x if x <= 1 else f[1] + (f[2] - f[1]) * (x - 1) / 2

                # The functions may have additional points wherever their arguments intersect
                def agree(g, width, key):
                    xs = [x for x, _ in g]
                    H.check(set((0, 1, 3)) <= set(xs) and xs == sorted(set(xs)) and
                            all(near(y, sum(at(f, x) for f in chosen) / n + width) for x, y in g), key,
                            lambda: "mean of %r with offset %g, got %r" % (chosen, width, g))

                agree(got[0], 0, "smoothing-mean")
                band = got[1][0][1] - got[0][0][1]
                H.check(any(near(band, s) for s in suprema(columns)), "smoothing-quantile", lambda: "width %g not among %r" % (band, suprema(columns)))
                agree(got[1], band, "smoothing-band")
                agree(got[2], -band, "smoothing-band")
    # Step functions
    intervals = [(0, 1), (0, 2), (1, 3), (2, 3)]
    diagrams = [d for k in (1, 2) for d in itertools.combinations_with_replacement(intervals, k)]
    # Sums of functions with gaps or several steps are subject to a known finding of step functions
    diagrams.remove(((0, 1), (2, 3)))
    for n in (1, 2, 3):
        for chosen in (itertools.product(diagrams) if n == 1 else itertools.product([((0, 3),) * k for k in (1, 2, 3, 5)], repeat=n)):
            if not (H.mine() and H.case("confidence sets %r" % (chosen,))):
                continue
            wipe(scratch("away"))
            files = [put("d%d.txt" % i, "".join("%g %g\n" % p for p in d) + "1 1\n2 inf\n") for i, d in enumerate(chosen)]
            options = [[], ["-b", "7"], ["--alpha=0.2", "--bootstrap=20"]][n - 1]
            r = good("persistence_indicator_function_confidence_sets", "confidence", *options, *files)
            if r is None:
                continue
            got = blocks(get(away("Mean_plus_confidence.txt")) or "")
            H.equal(len(got), 3, "confidence-shape", "number of functions")
            if len(got) != 3:
                continue
            ticks = [0.5, 1.5, 2.5]
            columns = [[sum(x < t < y for x, y in d) for d in chosen] for t in ticks]
            mean = [sum(c) / n for c in columns]

            def value(g, t):
                """Value of a printed step function, None outside of its domain."""
                for (a, u), (b, v) in zip(g[::2], g[1::2]):
                    H.check(u == v, "confidence-format", "interval with values %g and %g" % (u, v))
                    if a < t < b:
                        return u
                return None

            for t, m in zip(ticks, mean):
                H.check(near(value(got[0], t) or 0, m), "confidence-mean", lambda: "mean at %g: expected %g, got %r" % (t, m, got[0]))
            widths = [value(got[1], t) - value(got[0], t) for t in ticks if value(got[0], t) is not None and value(got[1], t) is not None]
            # The suprema are taken over all intervals, hence also over single points
            H.check(widths and all(near(w, widths[0]) and w >= 0 for w in widths), "confidence-band", lambda: "widths %r" % widths)
            for t in ticks:
                a, b, c = (value(g, t) for g in got)
                if None not in (a, b, c):
                    H.check(near(b - a, a - c), "confidence-band", lambda: "band at %g: %g, %g, %g" % (t, c, a, b))
            if n == 1:
                H.check(all(near(w, 0) for w in widths), "confidence-band", lambda: "single function: widths %r" % widths)
            else:
                H.check(all(any(near(w, s) for s in suprema(columns)) for w in widths), "confidence-quantile",
                        lambda: "widths %r not among %r" % (widths, suprema(columns)))


# Glyphs ---------------------------------------------------------------

def explore_glyphs():
    intervals = [(1, 2), (1, 4), (2, 5), (4, 9), (3, 9), (1, 9)]
    diagrams = [d for k in (1, 2) for d in itertools.combinations_with_replacement(intervals, k)]
    wide = [(d,) for k in (1, 2) for d in itertools.combinations_with_replacement([(1, 1000), (1, 2), (30, 500)], k)]
    for n in (1, 2):
        for chosen in list(itertools.combinations(diagrams, n)) + (wide if n == 1 else []):
            for bins, extra in ((1, 0), (2, 0), (3, 4), (5, 0), (7, 0), (11, 3)):
                if n == 2 and bins in (2, 7) and not H.thorough:
                    continue
                if not (H.mine() and H.case("glyphs %d %d %r" % (bins, extra, chosen))):
                    continue
                wipe(scratch("away"))
                files = [put("d%d.txt" % i, "".join("%g %g\n" % p for p in d) + "1 1\n2 inf\n") for i, d in enumerate(chosen)]
                r = good("persistence_indicator_function_glyph", "glyphs", *(["--max-k=%d" % extra] if extra else []), bins, *files)
                if r is None:
                    continue
                ends = [e for d in chosen for p in d for e in p]
                lo, hi = min(ends), max(ends)
                for scale in ("lin", "log"):
                    edges = [lo + (hi - lo) * i / bins if scale == "lin" else lo * (hi / lo) ** (i / bins) for i in range(bins + 1)]
                    content = get(away("Persistence_indicator_function_glyph_%d_%s.txt" % (bins, scale)))
                    H.check(content is not None, "glyphs-file", "no output for scale %s" % scale)
                    got = [tuple(map(number, line.split())) for line in (content or "").splitlines() if line.strip()]
                    want = {}
                    for row in range(max(n, extra)):
                        for i in range(bins):
                            v = 0
                            if row < n:
                                # Bins that touch the end of an interval are not decided
                                cuts = sorted(set([edges[i], edges[i + 1]] + [e for e in ends if edges[i] < e < edges[i + 1]]))
                                mids = [(a + b) / 2 for a, b in zip(cuts, cuts[1:])]
                                v = max(sum(x < m < y for x, y in chosen[row]) for m in mids)
                                if any(abs(e - edges[k]) < 1e-6 for e in ends for k in (i, i + 1) if lo < e < hi):
                                    v = None
                            want[i, row] = v
                    H.equal(sorted((c, r) for c, r, _ in got), sorted(want), "glyphs-shape", "cells (%s)" % scale)
                    for c, r_, v in got:
                        e = want.get((c, r_))
                        H.check(e is None or v == e, "glyphs-" + scale, lambda: "cell %d of row %d: expected %r, got %r" % (c, r_, e, v))


def explore():
    explore_levels()
    explore_spectra()
    explore_hierarchies()
    explore_bands()
    explore_glyphs()


main(explore)
