"""Command-line tools that read point clouds."""
import itertools
import json
import math
import re

import pyref
from vf import H, main
from vf_tools import run, good, put, get, wipe, scratch, away, number, near, same, expect

INF = float("inf")


def text(points, separator=" "):
    return "".join(separator.join("%g" % x for x in p) + "\n" for p in points)


def euclidean(p, q):
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(p, q)))


def manhattan(p, q):
    return sum(abs(x - y) for x, y in zip(p, q))


GRID = list(itertools.product((0, 1, 2), repeat=2))
CUBE = list(itertools.product((0, 1), (0, 1), (0, 3)))


def clouds(sizes=(2, 3, 4), five=True):
    """Sets of points of a grid, of a line and of a box, some in reverse order."""
    for n in sizes:
        for k, c in enumerate(itertools.combinations(GRID, n)):
            yield list(c) if k % 2 == 0 else list(c)[::-1]
        for c in itertools.combinations((0, 1, 2.5, 4.5, 9), n):
            yield [(x,) for x in c]
            yield [(x,) for x in reversed(c)]
        for k, c in enumerate(itertools.combinations(CUBE, n)):
            if H.thorough or k % 3 == 0:
                yield list(c)
    if five:
        for k, c in enumerate(itertools.combinations(GRID, 5)):
            if H.thorough or k % 5 == 0:
                yield list(c[2:] + c[:2])


def sorted_distances(points, metric=euclidean):
    return [sorted(metric(p, q) for q in points) for p in points]


# Data descriptors ------------------------------------------------------

def descriptor(points, name, k=10, h=0.01, p=2):
    n = len(points)
    d = sorted_distances(points)
    if name == "density":
        return [-sum(r[:k]) / n for r in d]
    if name == "eccentricity":
        return [max(r) if p == 0 else (sum(x ** p for x in r) / n) ** (1 / p) for r in d]
    return [sum(math.exp(-x * x / (2 * h)) for x in r if x <= h) / n for r in d]


def rips(points, values, epsilon, dimension):
    n = len(points)
    simplices = [frozenset(c) for r in range(1, dimension + 2) for c in itertools.combinations(range(n), r)
                 if all(euclidean(points[a], points[b]) <= epsilon for a, b in itertools.combinations(c, 2))]
    weights = {s: max(values[v] for v in s) for s in simplices}
    simplices.sort(key=lambda s: (weights[s], len(s)))
    return simplices, [weights[s] for s in simplices]


def off_diagonal(points):
    return [p for p in points if abs(p[0] - p[1]) > 1e-7]


CHOICES = [[], ["-k", "2"], ["--k=3"], ["-d", "density", "-k", "1"], ["-d", "eccentricity"], ["-d", "eccentricity", "-p", "0"],
           ["--descriptor=eccentricity", "--power=1"], ["-d", "eccentricity", "-p", "3"], ["-d", "gaussian"],
           ["-d", "gaussian", "-b", "1.1"], ["--descriptor=gaussian", "--bandwidth=2.1"]]


def chosen(options):
    kw, name = {}, "density"
    it = iter([y for x in options for y in (x.split("=") if x.startswith("--") else [x])])
    for key, value in zip(it, it):
        if key in ("-k", "--k"):
            kw["k"] = int(value)
        elif key in ("-p", "--power"):
            kw["p"] = int(value)
        elif key in ("-b", "--bandwidth"):
            kw["h"] = float(value)
        else:
            name = value
    return name, kw


def explore_descriptors():
    tool = "point_cloud_data_descriptors"
    for points in clouds():
        for i, options in enumerate(CHOICES):
            flags = [(inv, norm, rem) for inv in (0, 1) for norm in (0, 1) for rem in (0, 1)]
            if not H.thorough:
                flags = [flags[(i + len(points) * 3 + int(sum(map(sum, points)))) % 8]]
            for inverse, normalize, remove in flags:
                k = (i * 7 + int(sum(map(sum, points)))) % 12
                epsilon = (0, 1.2, 1.6, 2.1, 2.3, 3.4)[k % 6]
                dimension = (None, 1, 2, 3)[(k + i) % 4]
                if not (H.mine() and H.case("descriptors %s inv=%d norm=%d rem=%d eps=%g dim=%s %r" %
                                            (" ".join(options), inverse, normalize, remove, epsilon, dimension, points))):
                    continue
                long = i % 2
                name, kw = chosen(options)
                values = descriptor(points, name, **kw)
                if inverse:
                    values = [max(values) - v for v in values]
                lo, hi = min(values), max(values)
                # Equal values may differ by rounding, which normalisation would enlarge
                if normalize and hi - lo < 1e-9:
                    continue
                if normalize:
                    values = [(v - lo) / (hi - lo) for v in values]
                args = list(options)
                if epsilon:
                    args += ["--epsilon=%g" % epsilon] if long else ["-e", epsilon]
                if dimension:
                    args += ["--dimension=%d" % dimension] if long else ["-D", dimension]
                args += [["--invert"], ["-i"]][long] * inverse + [["-n"], ["--normalize"]][long] * normalize + [["-r"], ["--remove-unpaired"]][long] * remove
                path = put("cloud.txt", text(points))
                r = good(tool, "descriptors", *args, path)
                if r is None:
                    continue
                try:
                    data = json.loads(r.out)["diagrams"]
                    got = {}
                    for d in data:
                        H.check(d["name"] == path, "descriptors-name", lambda: "diagram is called %r" % d["name"])
                        ps = [(number(x), number(y)) for x, y in d["diagram"]]
                        H.equal(len(ps), d["size"], "descriptors-size", "size")
                        H.equal(sum(p[1] == INF for p in ps), d["betti"], "descriptors-betti", "Betti number")
                        H.check(d["dimension"] not in got, "descriptors-dimension", lambda: "dimension %d appears twice" % d["dimension"])
                        got[d["dimension"]] = off_diagonal(ps)
                except (ValueError, KeyError) as e:
                    H.fail("descriptors-json", "%s: %s" % (e, r.out[:500]))
                    continue
                want = {}
                for d, ps in pyref.reported(*rips(points, values, epsilon, dimension or len(points[0]) + 1)):
                    want[d] = [p for p in off_diagonal(ps) if not remove or p[1] != INF]
                for d in set(want) | set(got):
                    expect(got.get(d, []), want.get(d, []), "descriptors", "dimension %d" % d)
    if H.mine() and H.case("descriptors without a file"):
        r = run(tool)
        H.check(r.status != 0 and not r.out, "descriptors-usage", lambda: "status %d, output %r" % (r.status, r.out))


# Local dimensionality --------------------------------------------------

def eigenvalues(m):
    """Eigenvalues of a symmetric matrix by Jacobi rotations, in descending order."""
    n = len(m)
    m = [list(r) for r in m]
    for _ in range(60):
        for p in range(n):
            for q in range(p + 1, n):
                if abs(m[p][q]) < 1e-15:
                    continue
                theta = 0.5 * math.atan2(2 * m[p][q], m[q][q] - m[p][p])
                c, s = math.cos(theta), math.sin(theta)
                for k in range(n):
                    m[k][p], m[k][q] = c * m[k][p] - s * m[k][q], s * m[k][p] + c * m[k][q]
                for k in range(n):
                    m[p][k], m[q][k] = c * m[p][k] - s * m[q][k], s * m[p][k] + c * m[q][k]
    return sorted((m[i][i] for i in range(n)), reverse=True)


def principal(points):
    """Position of the largest gap between the singular values of the centred
    points, or nothing if it is not unique."""
    d, n = len(points[0]), len(points)
    mean = [sum(p[i] for p in points) / n for i in range(d)]
    cov = [[sum((p[i] - mean[i]) * (p[j] - mean[j]) for p in points) for j in range(d)] for i in range(d)]
    s = [math.sqrt(max(x, 0)) for x in eigenvalues(cov)][:min(n, d)]
    if len(s) < 2:
        return len(s)
    gaps = [a - b for a, b in zip(s, s[1:])]
    best = max(gaps)
    return gaps.index(best) + 1 if sum(best - g < 1e-6 for g in gaps) == 1 else None


def nearest(points, k=None, K=None):
    result = []
    for r in sorted_distances(points):
        if K is None:
            a, b = sum(r[:k]) / k, sum(r[:k + 1]) / (k + 1)
            result.append(a / ((b - a) * k) if b - a > 1e-9 else None)
        else:
            m = [sum(r[:j]) / j for j in range(k, K + 1)]
            s = sum((b - a) * a / (k + i) for i, (a, b) in enumerate(zip(m, m[1:])))
            t = sum((b - a) ** 2 for a, b in zip(m, m[1:]))
            result.append(s / t if t > 1e-9 else None)
    return result


def likelihood(points, k, K):
    result = []
    for r in sorted_distances(points):
        total = 0
        for j in range(k - 1, K):
            if j > 1:
                m = sum(math.log(r[j] / x) for x in r[:j] if x > 0 and r[j] > 0) / (j - 1)
                total += 1 / m if m > 1e-9 else 0
                if 0 < abs(m) <= 1e-9:
                    total = None
                    break
        result.append(None if total is None else total / (K - k + 1))
    return result


def smooth(points, values, k, n):
    for _ in range(n):
        result = []
        for p in points:
            near_ = sorted((euclidean(p, q), j) for j, q in enumerate(points))
            if len(near_) > k + 1 and abs(near_[k][0] - near_[k + 1][0]) < 1e-9:
                result.append(None)
                continue
            terms = [(values[j], 1 / (d * d) if d else 1) for d, j in near_[:k + 1]]
            result.append(None if any(v is None for v, _ in terms) else sum(v * w for v, w in terms) / sum(w for _, w in terms))
        values = result
    return values


def explore_dimensions():
    tool = "local_dimensionality"
    solids = [list(c) for n in (4, 5) for c in itertools.combinations(CUBE, n)]
    for points in list(clouds((3, 4), five=H.thorough)) + solids:
        n = len(points)
        modes = [("pca", n - 1, None), ("pca", 8, None), ("default", 8, None)]
        modes += [("nn", k, None) for k in range(1, n)]
        modes += [("nn", k, K) for K in range(2, n + 1) for k in range(1, K)]
        modes += [("mle", k, K) for K in range(2, n + 1) for k in range(1, K + 1)]
        for m, (mode, k, K) in enumerate(modes):
            if points in solids and mode not in ("pca", "default"):
                continue
            for steps in (None, 1, 2) if H.thorough else ((None,), (None, 1), (None, 2))[m % 3]:
                if not (H.mine() and H.case("dimensionality %s k=%s K=%s smooth=%s %r" % (mode, k, K, steps, points))):
                    continue
                if mode in ("pca", "default"):
                    if k + 1 < n:
                        continue
                    want = [principal(points)] * n
                elif mode == "nn":
                    want = nearest(points, k, K)
                else:
                    want = likelihood(points, k, K)
                long = (m + n) % 2
                args = []
                if mode != "default":
                    args += ["--method=%s" % mode] if long else ["-m", mode]
                    args += ["--k=%d" % k] if long else ["-k", k]
                if K:
                    args += ["--K=%d" % K] if long else ["-K", K]
                if steps:
                    args += ["--smooth"] if long else ["-s"]
                    if steps > 1:
                        args += ["--n=%d" % steps] if long else ["-n", steps]
                    want = smooth(points, want, k, steps)
                r = good(tool, "dimensionality", *args, put("cloud.txt", text(points)))
                if r is None:
                    continue
                got = [number(x) for x in r.out.split()]
                H.check(len(got) == n and all(w is None or near(g, w) for g, w in zip(got, want)), "dimensionality",
                        lambda: "%s: expected %r, got %r" % (args, want, got))
    if H.mine() and H.case("dimensionality without a file"):
        r = run(tool)
        H.check(r.status != 0 and not r.out, "dimensionality-usage", lambda: "status %d, output %r" % (r.status, r.out))


# Curvature -------------------------------------------------------------

def explore_curvature():
    tool = "mean_curvature"
    circle = [(3, 4), (4, 3), (5, 0), (4, -3), (3, -4), (0, -5), (-3, -4), (-4, -3), (-5, 0), (-4, 3), (-3, 4), (0, 5)]
    sets = [([(sx * x + 1, sx * y - 2) for x, y in c], 1 / (5 * sx)) for n in (5, 6) for c in itertools.combinations(circle, n) for sx in (1, 0.25)]
    for i, (points, want) in enumerate(sets):
        if not H.thorough and i % 4:
            continue
        n = len(points)
        for k in (n, n - 1) if n > 5 else (n,):
            if not (H.mine() and H.case("curvature k=%d %r" % (k, points))):
                continue
            r = good(tool, "curvature", put("cloud.txt", text(points)), k)
            if r is None:
                continue
            got = [tuple(map(number, row)) for row in r.rows()]
            H.check(len(got) == n and all(len(g) == 3 and near(g[0], p[0]) and near(g[1], p[1]) and near(g[2], want, 1e-4) for g, p in zip(got, points)),
                    "curvature", lambda: "expected curvature %g, got %r" % (want, got))


# Skeletons -------------------------------------------------------------

def heat(L, t):
    """exp(-tL) by scaling and squaring of the Taylor series."""
    n = len(L)
    k = 0
    while max(abs(x) for r in L for x in r) * t / 2 ** k > 0.05:
        k += 1
    a = [[-t * x / 2 ** k for x in r] for r in L]

    def product(p, q):
        return [[sum(p[i][l] * q[l][j] for l in range(n)) for j in range(n)] for i in range(n)]
    result = [[float(i == j) for j in range(n)] for i in range(n)]
    term = result
    for m in range(1, 12):
        term = [[x / m for x in r] for r in product(term, a)]
        result = [[x + y for x, y in zip(r, s)] for r, s in zip(result, term)]
    for _ in range(k):
        result = product(result, result)
    return result


def explore_skeletons():
    tool = "multi_scale_skeleton"
    times = (0, 0.001, 0.01, 0.1, 0.5, 1, 9)
    for points in clouds((2, 3, 4)):
        if len(points[0]) != 2 or not (H.mine() and H.case("skeleton %r" % points)):
            continue
        n = len(points)
        # Two points are adjacent if no other one lies inside of the ball whose diameter
        # they span; points on its boundary are skipped because they depend on rounding
        inner = {(i, j): [euclidean(points[i], points[k]) ** 2 + euclidean(points[j], points[k]) ** 2 - euclidean(points[i], points[j]) ** 2
                          for k in range(n) if k not in (i, j)] for i, j in itertools.combinations(range(n), 2)}
        if any(abs(x) < 1e-9 and not any(y < -1e-9 for y in v) for v in inner.values() for x in v):
            H.note("boundary cases skipped")
            continue
        edges = {e: euclidean(points[e[0]], points[e[1]]) for e, v in inner.items() if all(x > 0 for x in v)}
        L = [[0.0] * n for _ in range(n)]
        for (i, j), w in edges.items():
            L[i][j] = L[j][i] = -w
            L[i][i] += w
            L[j][j] += w
        mean = [sum(w for e, w in edges.items() if i in e) / sum(i in e for e in edges) for i in range(n)]
        r = good(tool, "skeleton", put("cloud.txt", text(points)))
        if r is None:
            continue
        want, places = [], []
        for t in times:
            hk = heat(L, t)
            want += [(i, mean[i] * hk[i][i]) for i in range(n)]
            places += [points[i] + (mean[i] * hk[i][i],) for i in range(n)]
        for name, got, ref in (("skeleton", r.out, want), ("skeleton-file", get(away("HKS.txt")) or "", places)):
            got = [tuple(map(number, line.split())) for line in got.splitlines() if line.strip()]
            H.check(len(got) == len(ref) and all(len(g) == len(w) and all(near(x, y) for x, y in zip(g, w)) for g, w in zip(got, ref)),
                    name, lambda: "expected %r, got %r" % (ref, got))


# Distributions of distances -------------------------------------------

def explore_distributions():
    tool = "rips_distributions"
    for points in clouds((1, 2, 3, 4)):
        for metric, epsilon, long in itertools.product((None, "euclidean", "manhattan"), (None, 0.5, 1.2, 2.1, 2.3, 3.3), (0, 1)):
            if not H.thorough and (long + len(points) + int(points[0][0])) % 2:
                continue
            if not (H.mine() and H.case("distributions %s %s long=%d %r" % (metric, epsilon, long, points))):
                continue
            f = manhattan if metric == "manhattan" else euclidean
            args = []
            if metric:
                args += ["--distance=%s" % metric] if long else ["-d", metric]
            if epsilon:
                args += ["--epsilon=%g" % epsilon] if long else ["-e", epsilon]
            r = good(tool, "distributions", *args, put("cloud.txt", text(points)))
            if r is None:
                continue
            try:
                data = json.loads(r.out)
            except ValueError as e:
                H.fail("distributions-json", "%s: %s" % (e, r.out[:500]))
                continue
            want = {"distances": [f(p, q) ** 2 for p, q in itertools.combinations(points, 2)]}
            if epsilon:
                d = [[x for x in row if x <= epsilon] for row in sorted_distances(points, f)]
                want["unweighted_degrees"] = [len(row) for row in d]
                want["weighted_degrees"] = [sum(row) for row in d]
            for key in set(want) | set(data):
                g, w = data.get(key, []), want.get(key, [])
                H.check(len(g) == len(w) and all(near(x, y) for x, y in zip(g, w)), "distributions-" + key, lambda: "expected %r, got %r" % (w, g))


# Image patches ---------------------------------------------------------

def contrast(p):
    n = int(math.isqrt(len(p)))
    total = 0
    for i, j in itertools.product(range(n), repeat=2):
        for a, b in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)):
            if 0 <= a < n and 0 <= b < n:
                total += (p[n * i + j] - p[n * a + b]) ** 2
    return total


def explore_patches():
    tool = "process_image_patches"
    patches = [p for p in itertools.product((0, 1, 10, 100), repeat=4) if len(set(math.log10(x) if x else 0 for x in p)) > 1]
    nine = [p for k, p in enumerate(itertools.product((1, 10, 1000), repeat=9)) if len(set(p)) > 1 and k % 97 == 5]
    lists = [[p] for p in patches[::3]] + [[p] for p in nine]
    lists += [patches[k:k + n] for n in (2, 3, 5, 6, 10, 11) for k in range(0, len(patches) - n, 1 if H.thorough else 5)]
    lists += [nine[k:k + n] for n in (2, 5, 6, 11) for k in range(0, len(nine) - n, 1 if H.thorough else 4)]
    for points in lists:
        if not (H.mine() and H.case("patches %r" % points)):
            continue
        logs = [[math.log10(x) if x else 0 for x in p] for p in points]
        norms = [contrast(p) for p in logs]
        ordered = sorted(norms)
        threshold = ordered[min(math.ceil(0.8 * len(norms) - 1e-9), len(norms) - 1)]
        want = []
        for p, c in zip(logs, norms):
            if c > threshold - 1e-4:
                m = sum(p) / len(p)
                v = [x - m for x in p]
                e = math.sqrt(sum(x * x for x in v))
                want.append(tuple(x / e for x in v))
        # Equal norms must be distinguishable from different ones in single precision
        if any(1e-9 < abs(c - threshold) < 1e-3 for c in norms):
            continue
        r = good(tool, "patches", put("cloud.txt", text(points)))
        if r is None:
            continue
        got = [tuple(map(number, row)) for row in r.rows()]
        H.check(len(got) <= len(want) and all(any(all(near(x, y, 1e-4) for x, y in zip(g, w)) for w in want) for g in got), "patches",
                lambda: "expected %r, got %r" % (want, got))
        # Norms that are equal up to rounding may end up on either side of the threshold
        if sum(abs(c - threshold) < 1e-9 for c in norms) == 1:
            H.check(len(got) == len(want) and all(near(x, y, 1e-4) for g, w in zip(got, want) for x, y in zip(g, w)), "patches-order",
                    lambda: "expected %r, got %r" % (want, got))
        else:
            strict = sum(c > threshold + 1e-4 for c in norms)
            H.check(len(got) > strict, "patches-count", lambda: "expected more than %d patches, got %d" % (strict, len(got)))


# Cover trees -----------------------------------------------------------

def explore_trees():
    for points in clouds((1, 2, 3, 4)):
        for source in ("file", "stdin"):
            if not (H.mine() and H.case("cover tree %s %r" % (source, points))):
                continue
            content = "# comment\n\n" + text(points, "  ")
            r = good("cover_tree", "tree", put("cloud.txt", content)) if source == "file" else good("cover_tree", "tree", "-", stdin=content)
            if r is None:
                continue
            got, d = [], len(points[0])
            for m in re.finditer(r"^-?\d+: (.*)$", r.err, re.M):
                x = [number(t) for t in m.group(1).split()]
                got += [tuple(x[i:i + d]) for i in range(0, len(x), d)]
            expect(got, [tuple(map(float, p)) for p in points], "tree", "points of the tree")


# Spines ----------------------------------------------------------------

def ball(points):
    """Radius of the smallest ball that encloses the points of a plane."""
    best = INF
    for a, b in itertools.combinations(points, 2):
        c = tuple((x + y) / 2 for x, y in zip(a, b))
        r = euclidean(a, b) / 2
        if all(euclidean(c, p) <= r + 1e-9 for p in points):
            best = min(best, r)
    for a, b, c in itertools.combinations(points, 3):
        d = 2 * (a[0] * (b[1] - c[1]) + b[0] * (c[1] - a[1]) + c[0] * (a[1] - b[1]))
        if abs(d) < 1e-12:
            continue
        x = sum((p[0] ** 2 + p[1] ** 2) * (q[1] - r[1]) for p, q, r in ((a, b, c), (b, c, a), (c, a, b))) / d
        y = sum((p[0] ** 2 + p[1] ** 2) * (r[0] - q[0]) for p, q, r in ((a, b, c), (b, c, a), (c, a, b))) / d
        r = euclidean((x, y), a)
        if all(euclidean((x, y), p) <= r + 1e-9 for p in points):
            best = min(best, r)
    return best


def betti(simplices):
    if not simplices:
        return []
    order = sorted(simplices, key=lambda s: (len(s), sorted(s)))
    pairs, unpaired = pyref.pairing(order)
    result = [0] * (max(map(len, order)))
    for i in unpaired:
        result[len(order[i]) - 1] += 1
    while result and result[-1] == 0:
        result.pop()
    return result


def free_faces(simplices):
    simplices = set(simplices)
    return [s for s in simplices if len([t for t in simplices if s < t]) == 1]


def pictures(out):
    result = []
    for body in re.findall(r"\\begin\{tikzpicture\}(.*?)\\end\{tikzpicture\}", out, re.S):
        found = set()
        for line in body.splitlines():
            m = re.match(r"\\coordinate\((\d+)\)", line)
            if m:
                found.add(frozenset([int(m.group(1))]))
            elif " -- " in line:
                found.add(frozenset(int(x) for x in re.findall(r"\((\d+)\)", line)))
        result.append(found)
    return result


def explore_spines():
    tool = "persistent_spines"
    for points in clouds((1, 2, 3, 4), five=True):
        if len(points[0]) != 2:
            continue
        for i, radius in enumerate((None, 0.6, 0.8, 1.05, 1.2, 1.6)):
            for method, tikz in itertools.product((None, "dumb", "other"), (0, 1)):
                if not H.thorough and (i + tikz + len(points) + (method == "other")) % 2:
                    continue
                if not (H.mine() and H.case("spine r=%s %s tikz=%d %r" % (radius, method, tikz, points))):
                    continue
                long = i % 2
                args = ([["-r", radius], ["--radius=%g" % radius]][long] if radius else []) + \
                    ([["-s", method], ["--spine=%s" % method]][long] if method else []) + ([["-t"], ["--tikz"]][long] if tikz else [])
                r = good(tool, "spine", *args, put("cloud.txt", text(points)))
                if r is None:
                    continue
                n = len(points)
                cech = {frozenset(c): 0.0 if k == 1 else 2 * ball([points[v] for v in c]) for k in range(1, n + 1) for c in itertools.combinations(range(n), k)}
                cech = {s: w for s, w in cech.items() if w <= 2 * (radius or 0)}
                if tikz:
                    found = pictures(r.out)
                    H.equal(len(found), 2, "spine-pictures", "number of pictures")
                    if len(found) != 2:
                        continue
                    H.equal(found[0], {s for s in cech if len(s) <= 3}, "spine-picture", "simplices of the picture")
                    if max(map(len, cech)) > 3:
                        continue  # the spine may have simplices that are not drawn
                    spine = found[1]
                else:
                    blocks = [b for b in re.split(r"^-+$", r.out, flags=re.M) if "{" in b]
                    complexes = []
                    for b in blocks:
                        c = {}
                        for vertices, weight in re.findall(r"\{([\d ]+?)(?: \(([^)]*)\))?\}", b):
                            c[frozenset(map(int, vertices.split()))] = number(weight) if weight else 0.0
                        complexes.append(c)
                    H.equal(len(complexes), 2, "spine-complexes", "number of complexes")
                    if len(complexes) != 2:
                        continue
                    H.check(set(complexes[0]) == set(cech) and all(near(w, cech[s]) for s, w in complexes[0].items()), "spine-cech",
                            lambda: "expected %r, got %r" % (cech, complexes[0]))
                    spine = set(complexes[1])
                if set(spine) - set(cech):
                    H.fail("spine-subcomplex", "%r is not in the complex" % (set(spine) - set(cech)))
                    continue
                H.check(all(frozenset(f) in spine for s in spine if len(s) > 1 for f in itertools.combinations(s, len(s) - 1)),
                        "spine-closed", lambda: "spine %r is not closed" % spine)
                H.equal(betti(spine), betti(cech), "spine-betti", "Betti numbers")
                H.check(not free_faces(spine), "spine-free", lambda: "spine %r has free faces" % spine)


def explore():
    explore_descriptors()
    explore_dimensions()
    explore_curvature()
    explore_skeletons()
    explore_distributions()
    explore_patches()
    explore_trees()
    explore_spines()


main(explore)
