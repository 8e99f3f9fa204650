"""Command-line tools for connectivity matrices, stratified graphs and intersection homology."""
import itertools
import json
import math
import os

import pyref
from vf import H, main
from vf_tools import run, good, put, get, wipe, scratch, away, number, near, same, expect

INF = float("inf")


def read_points(path):
    content = get(path)
    return None if content is None else [tuple(map(number, line.split())) for line in content.splitlines() if line.strip() and not line.startswith("#")]


def cliques(n, adjacent, dimension):
    return [frozenset(c) for r in range(1, dimension + 2) for c in itertools.combinations(range(n), r)
            if all(frozenset(e) in adjacent for e in itertools.combinations(c, 2))]


# Connectivity matrices -------------------------------------------------

def matrices():
    """Diagonal entry and weights of the edges, in lexicographic order; None is not a number."""
    for diagonal in (0, 1):
        for w in itertools.product((-0.5, 0, 0.25, None), repeat=1):
            yield 2, diagonal, w
        for w in itertools.product((-0.5, 0, 0.25, 0.75), repeat=3):
            yield 3, diagonal, w
        for w in itertools.product((-0.5, None, 1), repeat=3):
            yield 3, diagonal, w
    for k, w in enumerate(itertools.product((-0.5, 0, 0.5), repeat=6)):
        if H.thorough or k % 3 == 0:
            yield 4, k % 2, w
    for k, w in enumerate(itertools.permutations((-0.75, -0.5, -0.25, 0.25, 0.5, 0.75))):
        if H.thorough or k % 4 == 0:
            yield 4, k % 2, w
    # The octahedron has a two-dimensional hole
    opposite = ((0, 5), (1, 4), (2, 3))
    for absent in (0, None):
        w, k = [], 0
        for e in itertools.combinations(range(6), 2):
            w.append(absent if e in opposite else (k * 5 % 12 + 1) / 16)
            k += e not in opposite
        yield 6, 0, tuple(w)
        yield 6, 1, tuple(x and -x for x in w)


def connectivity(n, diagonal, w, dimension, keep, infinity, distance):
    edges = dict(zip(map(frozenset, itertools.combinations(range(n), 2)), w))
    values = [x for x in w if x is not None] + [diagonal]
    present = {e: x for e, x in edges.items() if x is not None and x != 0}
    simplices = cliques(n, present, max(dimension, 1))
    result = [[] for _ in range(keep + dimension + 1)]
    for sign in ((1,) if distance else (1, -1)):
        base = {e: 1 - x if distance else x for e, x in present.items()}
        vertex = 0 if distance else min(values) if sign > 0 else max(values)
        f = max if sign > 0 else min
        weights = {s: vertex if len(s) == 1 else f(base[frozenset(e)] for e in itertools.combinations(s, 2)) for s in simplices}
        order = sorted(simplices, key=lambda s: (sign * weights[s], len(s)))
        ref = pyref.diagrams(order, [weights[s] for s in order])
        if not keep:
            ref[-1] = [p for p in ref[-1] if p[1] != INF]
        for d, points in enumerate(ref[:len(result)]):
            result[d] += [(x, sign * infinity if y == INF and infinity != INF else y) for x, y in points]
    return result


def matrix(n, diagonal, w):
    edges = dict(zip(itertools.combinations(range(n), 2), w))
    rows = [["%g" % diagonal if i == j else "nan" if edges[min(i, j), max(i, j)] is None else "%g" % edges[min(i, j), max(i, j)]
             for j in range(n)] for i in range(n)]
    return "".join(" ".join(r) + "\n" for r in rows)


def explore_connectivity():
    tool = "ephemeral"
    for k, (n, diagonal, w) in enumerate(matrices()):
        variants = list(itertools.product((0, 1, 2), (0, 1), (INF, 2, -3), (0, 1)))
        if n == 6:
            variants = [v for v in variants if v[0] == 2] + [(3, 0, INF, 0), (3, 1, 2, 1)]
        elif not H.thorough:
            variants = [v for i, v in enumerate(variants) if (i + k) % 5 == 0]
        for dimension, keep, infinity, distance in variants:
            if not (H.mine() and H.case("connectivity dim=%d keep=%d inf=%g dist=%d %r" % (dimension, keep, infinity, distance, (n, diagonal, w)))):
                continue
            long = (k + dimension) % 2
            args = ([["-d", dimension], ["--dimension=%d" % dimension]][long] if dimension else []) + [["-k"], ["--keep-unpaired"]][long] * keep + \
                ([["-i", "%g" % infinity], ["--infinity=%g" % infinity]][long] if infinity != INF else []) + [["-D"], ["--distance"]][long] * distance
            wipe(scratch("away"))
            # A second file must not influence the first one
            files = [put("first.txt", matrix(n, diagonal, w))]
            other = None
            if k % 3 == 0:
                other = (3, 1, (0.5, -0.25, 0.125))
                files.insert(k % 2, put("second.txt", matrix(*other)))
            r = good(tool, "connectivity", *args, *files)
            if r is None:
                continue
            for name, m in (("first", (n, diagonal, w)), ("second", other)):
                if m is None:
                    continue
                want = connectivity(*m, dimension, keep, infinity, distance)
                for d, points in enumerate(want):
                    got = read_points(away("%s_d%d.txt" % (name, d)))
                    if got is None:
                        H.fail("connectivity-file", "no file for dimension %d of %s" % (d, name))
                        continue
                    expect(got, points, "connectivity", "%s, dimension %d" % (name, d))
            stray = set(os.listdir(scratch("away"))) - {"%s_d%d.txt" % (f, d) for f in ("first", "second") for d in range(dimension + keep + 1)}
            H.check(not stray, "connectivity-stray", lambda: "unexpected files %r" % stray)
    if H.mine() and H.case("connectivity without files"):
        r = run(tool)
        H.check(r.status != 0, "connectivity-usage", lambda: "status %d" % r.status)


# Stratified graphs -----------------------------------------------------

def graphs():
    """Edges with weights and, for complete bipartite graphs, the matrix."""
    values = (-2, -1, 1, 3)
    for w in itertools.product(values, repeat=2):
        yield (((0, 1, w[0]), (0, 2, w[1]))), [w]
    for w in itertools.product(values, repeat=4):
        yield tuple((y, x + 2, w[2 * y + x]) for y in (0, 1) for x in (0, 1)), [w[:2], w[2:]]
    for k, w in enumerate(itertools.permutations((-3, -2, -1, 1.5, 2, 4))):
        if H.thorough or k % 6 == 0:
            yield tuple((y, x + 2, w[3 * y + x]) for y in (0, 1) for x in (0, 1, 2)), [w[:3], w[3:]]
    for w in itertools.product((-2, -1, 1), repeat=3):
        yield ((0, 1, w[0]), (1, 2, w[1]), (0, 2, w[2])), None
        yield ((0, 1, w[0]), (2, 3, w[1]), (3, 4, w[2])), None


def stratified(edges, filtration, reverse, weights, normalization):
    """Points of the diagram in dimension zero."""
    edges = list(edges)
    w = [e[2] for e in edges]
    if normalization == "abs":
        f = lambda x: x / max(abs(min(w)), abs(max(w)))
    elif normalization == "minmax":
        f = lambda x: 2 * (x - min(w)) / (max(w) - min(w)) - 1
    elif normalization == "standardize":
        m = sum(w) / len(w)
        s = math.sqrt(sum((x - m) ** 2 for x in w) / (len(w) - 1))
        f = lambda x: (x - m) / s
    else:
        f = lambda x: x
    edges = [(u, v, f(x)) for u, v, x in edges]
    sign = -1 if reverse else 1
    absolute = filtration == "absolute"
    key = (lambda x: (sign * round(abs(x), 9), sign * x)) if absolute else (lambda x: sign * x)
    edges.sort(key=lambda e: key(e[2]))
    values = [e[2] for e in edges]
    extreme = (lambda x: abs(x)) if absolute else (lambda x: x)
    vertices = {}
    for u, v, x in edges:
        # With equal absolute values, either sign may be taken for all of the vertices; it
        # does not influence the reported absolute values
        value = (max if reverse else min)(values, key=extreme) if weights == "global" else x
        vertices.setdefault(u, value)
        vertices.setdefault(v, value)
    order = sorted(vertices.items(), key=lambda i: key(i[1]))
    pairs = pyref.components(order, edges)
    least = min(abs(x) for x in values)
    points = []
    for i, k in pairs:
        x = order[i][1]
        if k is None:
            points.append((x, least))
        elif absolute and abs(abs(x) - abs(edges[k][2])) < 1e-9:
            pass  # removed below, see there
        elif abs(x - edges[k][2]) > 1e-9:
            points.append((x, edges[k][2]))
    if absolute:
        points = [(abs(x), abs(y)) for x, y in points]
    if normalization == "diagram":
        data = [abs(x) if absolute else x for x in values + list(vertices.values())]
        lo, hi = min(data), max(data)
        if lo != hi:
            points = [((x - lo) / (hi - lo), (y - lo) / (hi - lo)) for x, y in points]
    return points


def explore_stratified():
    tool = "stratified_graph_analysis"
    options = list(itertools.product(("standard", "absolute", None), (0, 1), ("global", "local", None), (None, "abs", "minmax", "standardize", "diagram", "")))
    options.append("default")
    for k, (edges, m) in enumerate(graphs()):
        w = [e[2] for e in edges]
        for i, option in enumerate(options):
            if not H.thorough and (i * 5 + k) % 14 and option != "default":
                continue
            if option == "default":
                filtration, reverse, weights, normalization = "absolute", 1, "global", "abs"
            else:
                filtration, reverse, weights, normalization = option
            bipartite, picture = (k + i) % 2 if m else 0, (k + i // 2) % 2
            if not (H.mine() and H.case("stratified %s bipartite=%d diagrams=%d %r" % (option, bipartite, picture, edges))):
                continue
            if normalization in ("abs", "minmax", "standardize") and len(set(w)) < 2:
                continue
            kind = "diagram" if normalization == "" else normalization
            # The substitute for infinity is an absolute value and need not be in the range of negative weights
            if kind == "diagram" and max(w) < 0:
                continue
            long = k % 2
            args = []
            if option == "default":
                args += ["-d", "--default"][long:long + 1]
            else:
                if filtration:
                    args += ["--filtration=%s" % filtration] if long else ["-f", filtration]
                if reverse:
                    args += ["--reverse"] if long else ["-r"]
                if weights:
                    args += ["--weights=%s" % weights] if long else ["-w", weights]
                if normalization is not None:
                    args += (["--normalize=%s" % normalization] if normalization else ["--normalize"]) if long else ["-n" + normalization]
            args += [["-b"], ["--bipartite"]][long] * bipartite + [["-p"], ["--persistence-diagrams"]][long] * picture
            if bipartite:
                content = "".join(" ".join("%g" % x for x in row) + "\n" for row in m)
            else:
                content = "".join("%d %d %g\n" % e for e in edges)
            files = [put("graph.txt", content)]
            want = [stratified(edges, filtration or "standard", reverse, weights or "global", kind)]
            if k % 4 == 0:
                extra = ((0, 1, 1), (0, 2, -3))
                files.append(put("other.txt", "1 -3\n" if bipartite else "0 1 1\n0 2 -3\n"))
                want.append(stratified(extra, filtration or "standard", reverse, weights or "global", kind))
            r = good(tool, "stratified", *args, *files)
            if r is None:
                continue
            if picture:
                # A diagram may be empty; there is an unpaired point in every one
                got = [[tuple(map(number, line.split())) for line in b.splitlines() if line.strip() and not line.startswith("#")]
                       for b in r.out.split("\n\n") if b.strip()]
                H.equal(len(got), len(want), "stratified-count", "number of diagrams")
                for g, x in zip(got, want):
                    # Points on the diagonal in terms of absolute values may stem from different signs
                    if (filtration or "standard") == "absolute":
                        essential = sorted(p for p in x)
                        g = reduce_diagonal(g, x)
                        x = essential
                    expect(g, x, "stratified-diagram", " ".join(map(str, args)))
            else:
                got = [tuple(map(number, row)) for row in r.rows()]
                ref = [(j, math.sqrt(sum((x - y) ** 2 for x, y in points))) for j, points in enumerate(want)]
                H.check(len(got) == len(ref) and all(g[0] == x[0] and near(g[1], x[1], 5e-5) for g, x in zip(got, ref)), "stratified-norm",
                        lambda: "%s: expected %r, got %r" % (" ".join(map(str, args)), ref, got))


def reduce_diagonal(got, want):
    """Removes points of the diagonal that are not expected."""
    got, spare = list(got), []
    keep = [p for p in want if near(p[0], p[1])]
    result = []
    for p in got:
        if near(p[0], p[1]):
            match = next((q for q in keep if near(p[0], q[0])), None)
            if match is None:
                continue
            keep.remove(match)
        result.append(p)
    return result


# Intersection homology -------------------------------------------------

def columns(simplices):
    index = {s: i for i, s in enumerate(simplices)}
    return [sum(1 << index[frozenset(f)] for f in itertools.combinations(s, len(s) - 1)) if len(s) > 1 else 0 for s in simplices]


def persistent_betti(simplices, boundary, allowable, a, b, d):
    """Rank of the map between the d-dimensional intersection homology groups of
    two subcomplexes, given as sets of indices."""
    def chains(c, k):
        return [i for i in c if allowable[i] and len(simplices[i]) == k + 1]
    bad = ~sum(1 << i for i in a if allowable[i])
    cycles = len(chains(a, d)) - pyref.rank([boundary[i] for i in chains(a, d)])
    top = chains(b, d + 1)
    full = (1 << len(simplices)) - 1
    return cycles - (pyref.rank([boundary[i] for i in top]) - pyref.rank([boundary[i] & bad & full for i in top]))


def facets(simplices):
    return [s for s in simplices if not any(s < t for t in simplices)]


def explore_triangulations():
    tool = "wicked_triangulations"
    spaces = []
    for n in (2, 3, 4):
        spaces += [c for c in pyref.complexes(n) if max(map(len, c)) > 1]
    surfaces = {
        "sphere": [(1, 2, 3), (1, 2, 4), (1, 3, 4), (2, 3, 4)],
        "projective plane": [(1, 2, 3), (1, 2, 4), (1, 3, 5), (1, 4, 6), (1, 5, 6), (2, 3, 6), (2, 4, 5), (2, 5, 6), (3, 4, 5), (3, 4, 6)],
        "pinched": [(1, 2, 3), (1, 2, 4), (1, 3, 4), (2, 3, 4), (1, 5, 6), (1, 5, 7), (1, 6, 7), (5, 6, 7)],
    }
    for name, fs in surfaces.items():
        spaces.append([frozenset(v - 1 for v in s) for s in {frozenset(c) for f in fs for k in (1, 2, 3) for c in itertools.combinations(f, k)}])
    size = 1 if H.thorough else 2
    # Only every fourth complex on four vertices has to be a first one
    for k in range(0, len(spaces), size):
        group = spaces[k:k + size]
        if not (H.mine() and H.case("triangulations %r" % [[sorted(f) for f in facets(c)] for c in group])):
            continue
        content = "".join("complex_%d=[%s]\n\n" % (i, ",".join("[%s]" % ",".join(str(v + 1) for v in sorted(f)) for f in facets(c))) for i, c in enumerate(group))
        r = good(tool, "triangulation", put("triangulations.txt", content))
        if r is None:
            continue
        try:
            data = json.loads(r.out)
        except ValueError as e:
            H.fail("triangulation-json", "%s: %s" % (e, r.out[:500]))
            continue
        H.equal(sorted(data["homology"]), [str(i) for i in range(len(group))], "triangulation-count", "complexes")
        H.equal(sorted(data["intersection_homology"]), [str(i) for i in range(len(group))], "triangulation-count", "complexes")
        for i, c in enumerate(group):
            d = max(map(len, c)) - 1
            boundary = columns(c)
            everything = range(len(c))
            betti = [persistent_betti(c, boundary, [True] * len(c), everything, everything, j) for j in range(d + 1)]
            euler = sum((-1) ** (len(s) - 1) for s in c)
            H.equal(data["homology"][str(i)], {"betti": betti, "euler": euler}, "triangulation-homology", "homology")
            # Simplices of the subdivision are chains of faces
            flags = [[s] for s in c]
            for f in flags:
                flags += [f + [s] for s in c if f[-1] < s]
            L = [frozenset(f) for f in flags]
            boundary = columns(L)
            singular = [any(len(s) == 1 for s in f) for f in L]
            everything = range(len(L))
            memo = {}
            got = data["intersection_homology"].get(str(i), {})
            want = list(itertools.product(*[range(-1, j + 1) for j in range(d)]))
            H.equal(len(got), len(want), "triangulation-perversities", "number of perversities")
            for j, p in enumerate(want):
                allowable = tuple(not singular[x] or all(len(L[x]) - 1 - q + p[q - 1] >= 0 for q in range(1, d + 1)) for x in everything)
                if allowable not in memo:
                    memo[allowable] = [persistent_betti(L, boundary, allowable, everything, everything, q) for q in range(d + 1)]
                H.equal(got.get(str(j)), {"perversity": list(p), "betti": memo[allowable]}, "triangulation-intersection", "intersection homology")


def singular(c, dimension, epsilon, pattern, invert, standardize, k):
    tool = "persistent_intersection_homology"
    points, n = list(c), len(c)
    dist = {frozenset((a, b)): math.hypot(points[a][0] - points[b][0], points[a][1] - points[b][1]) for a, b in itertools.combinations(range(n), 2)}
    if any(abs(x - epsilon) < 1e-9 for x in dist.values()):
        return
    simplices = cliques(n, {e: x for e, x in dist.items() if x <= epsilon}, dimension)
    if max(map(len, simplices)) - 1 != dimension:
        return  # the strata are meant for complexes of exactly that dimension
    weights = {s: max([dist[frozenset(e)] for e in itertools.combinations(s, 2)] or [0]) for s in simplices}
    simplices.sort(key=lambda s: (weights[s], len(s)))
    args = []
    if pattern is not None:
        if standardize and len(set(pattern)) < 2:
            return
        args += [["-f", "0"], ["--filter=0.25"]][k % 2] + [["-i"], ["--invert"]][k % 2] * invert + [["-s"], ["--standardize"]][k % 2] * standardize
    args += [put("cloud.txt", "".join("%g %g\n" % p for p in points)), epsilon]
    if pattern is not None:
        # The values of a point are added
        value = [(1 if invert else -1) if x else (-1 if invert else 1) for x in pattern]
        args.append(put("values.txt", "".join("%g %g\n" % (v + 1, -1) for v in value)))
    elif dimension != 2:
        return
    if dimension != 2:
        args.append(dimension)
    wipe(scratch("away"))
    r = good(tool, "singular", *args)
    if r is None:
        return
    ws = [weights[s] for s in simplices]
    ref = pyref.diagrams(simplices, ws)
    ref[-1] = [p for p in ref[-1] if p[1] != INF]
    off = lambda ps: [p for p in ps if abs(p[0] - p[1]) > 1e-9]
    for d in range(3):
        got = read_points(away("D_%d_PH.txt" % d))
        if got is not None and d < len(ref):
            expect(off(got), off(ref[d]), "singular-homology", "dimension %d" % d)
        if d == 0:
            H.check(got is not None, "singular-file", "no diagram in dimension 0")
    if pattern is None:
        return
    inner = {frozenset([v]) for v in range(n) if pattern[v]}
    lines = inner | {s for s in simplices if len(s) == 2 and all(pattern[v] for v in s)}

    def dim(stratum, s):
        return max([len(t) - 1 for t in stratum if t <= s] or [-1])
    if dimension == 2:
        allowable = [dim(inner, s) < 0 or dim(inner, s) <= len(s) - 1 - 2 for s in simplices]
    else:
        allowable = [(dim(lines, s) < 0 or dim(lines, s) <= len(s) - 1 - 2) and (dim(inner, s) < 0 or dim(inner, s) <= len(s) - 1 - 3 + 1) for s in simplices]
    boundary = columns(simplices)
    levels = sorted(set(ws))
    upto = [[]] + [[i for i, x in enumerate(ws) if x <= v + 1e-9] for v in levels]
    m = len(levels)
    for d in range(3):
        got = read_points(away("D_%d_IH.txt" % d))
        if got is None:
            continue
        B = {}

        def beta(a, b):
            if (a, b) not in B:
                B[a, b] = persistent_betti(simplices, boundary, allowable, upto[a], upto[b], d)
            return B[a, b]
        bars = []
        for a in range(1, m + 1):
            for b in range(a + 1, m + 1):
                bars += [(levels[a - 1], levels[b - 1])] * (beta(a, b - 1) - beta(a, b) - beta(a - 1, b - 1) + beta(a - 1, b))
            bars += [(levels[a - 1], INF)] * (beta(a, m) - beta(a - 1, m))
        expect(off(got), off(bars), "singular-intersection", "dimension %d" % d)


def explore_singular():
    grid = [(0, 0), (2, 0), (1, 1), (3, 1), (0, 2), (1, 4)]
    for n in (3, 4, 5):
        for k, c in enumerate(itertools.combinations(grid, n)):
            for dimension in (2, 3):
                for pattern in list(itertools.product((0, 1), repeat=n)) + [None]:
                    for epsilon in (2.3, 3.3, 9):
                        if not H.thorough and (sum(pattern or (2,)) + int(epsilon) + k + n) % 2:
                            continue
                        invert = (k + sum(pattern or ())) % 2
                        standardize = (k // 2 + sum(pattern or ())) % 2
                        if not (H.mine() and H.case("singular %r dim=%d eps=%g singular=%r invert=%d standardize=%d" % (c, dimension, epsilon, pattern, invert, standardize))):
                            continue
                        singular(c, dimension, epsilon, pattern, invert, standardize, k)

    # A cycle, a point in the middle that is connected to all of its points,
    # and points with a simplex of the requested dimension elsewhere
    for k, (rim, epsilon) in enumerate([([(0, 2), (2, 0), (4, 2), (2, 4)], 3), ([(0, 2), (1, 0), (3, 0), (4, 2), (2, 4)], 2.9),
                                        ([(1, 0), (3, 0), (4, 1), (4, 3), (3, 4), (1, 4), (0, 3), (0, 1)], 2.5)]):
        hub = [(2, 2)]
        for dimension in (2, 3):
            away_from = [(20, 20), (21, 20), (20, 21), (21, 21)][:dimension + 1]
            for pattern in itertools.product((0, 1), repeat=len(rim) + 1):
                if sum(pattern) > (5 if H.thorough else 2) and len(rim) > 4:
                    continue
                for extra in (0, 1):
                    c = rim + hub + away_from
                    full = pattern + (extra,) + (0,) * dimension
                    invert = extra
                    if (sum(pattern) + extra) % 2:
                        # The point in the middle comes first
                        c = hub + rim + away_from
                        full = pattern[-1:] + pattern[:-1] + full[len(pattern):]
                    if H.mine() and H.case("singular %r dim=%d eps=%g singular=%r invert=%d" % (c, dimension, epsilon, full, invert)):
                        singular(c, dimension, epsilon, full, invert, 0, k)


def explore():
    explore_connectivity()
    explore_stratified()
    explore_triangulations()
    explore_singular()


main(explore)
