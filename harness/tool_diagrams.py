"""Command-line tools that read persistence diagrams: every small diagram file,
and every small collection of files, against the definitions."""
import itertools
import json
import math
import os

from vf import H, main
from vf_tools import run, good, put, get, wipe, scratch, number, near, expect

INF = float("inf")
FINITE = [(0, 1), (0, 2), (1, 3), (2, 3), (1, 1)]
POINTS = FINITE + [(1, INF)]


def text(diagram, comment=False):
    out = "# comment\n" if comment else ""
    return out + "".join("%g\t%s\n" % (x, "inf" if y == INF else "%g" % y) for x, y in diagram)


def multisets(points, n):
    for k in range(n + 1):
        yield from itertools.combinations_with_replacement(points, k)


def name(d):
    return " ".join("%g,%g" % p for p in d) or "empty"


# Statistics -----------------------------------------------------------

COLUMNS = ["file", "name", "dimension", "n_features", "power", "total_persistence", "total_persistence_normalized",
           "infinity_norm", "average_persistence"]


def statistics(diagrams, names, options, power, invalid):
    paths = [put(n, text(d)) for n, d in zip(names, diagrams)]
    r = good("persistence_diagram_statistics", "statistics", *options, *paths)
    if r is None:
        return
    rows = [line.split(",") for line in r.out.splitlines() if line.strip()]
    H.equal(rows[:1], [COLUMNS], "statistics-header", "header")
    H.equal(len(rows), len(paths) + 1, "statistics-rows", "number of rows")
    for row, path, n, d in zip(rows[1:], paths, names, diagrams):
        if invalid is not None:
            d = [p for p in d if invalid not in p]
        stem = n[:-4]
        dimension = 0
        for c in ("_d", "_k"):
            if c in stem and stem.rsplit(c, 1)[1].isdigit():
                stem, dimension = stem.rsplit(c, 1)
                break
        H.equal(row[:4], ["'%s'" % path, stem, str(int(dimension)), str(len(d))], "statistics-description", "columns")
        values = [y - x for x, y in d]
        want = [power, sum(v ** power for v in values)]
        got = [number(x) for x in row[4:]]
        if d:
            want += [want[1] / len(d), max(values), sum(values) / len(d)]
        else:
            got = got[:2]
        H.check(len(got) == len(want) and all(near(a, b) for a, b in zip(got, want)), "statistics-values",
                lambda: "expected %r, got %r" % (want, got))


def explore_statistics():
    for d in multisets(FINITE, 4 if H.thorough else 3):
        for options, power, invalid in (([], 2, None), (["--power=1"], 1, None), (["-p", "3"], 3, None),
                                        (["--invalid=1"], 2, 1), (["-i", "3", "-p", "1"], 1, 3)):
            if H.mine() and H.case("statistics %s | %s" % (" ".join(options), name(d))):
                statistics([d], ["data.txt"], options, power, invalid)
    names = ["a_d0.txt", "a_d1.txt", "b_k12.txt", "c_d.txt", "dk.txt", "e_d3_k2.txt", "x_1.txt"]
    for n in (1, 2, 3):
        for chosen in itertools.permutations(names, n):
            ds = [((0, k + 1), (1, 3)) for k in range(n)]
            if H.mine() and H.case("statistics of %s" % " ".join(chosen)):
                statistics(ds, chosen, [], 2, None)


# Entropies ------------------------------------------------------------

def entropy(weights):
    total = sum(weights)
    return -sum(w / total * math.log2(w / total) for w in weights if w) if total else 0.0


def explore_entropies():
    for d in multisets(FINITE + [(3, 3)], 4 if H.thorough else 3):
        if len(set(d)) < 2:
            continue
        if H.mine() and H.case("entropies of %s" % name(d)):
            r = good("persistence_diagram_entropies", "entropies", put("a.txt", text(d)), put("b.txt", text(d[::-1])))
            if r is None:
                continue
            areas = [min((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2 for j, b in enumerate(d) if j != i)
                     for i, a in enumerate(d)]
            want = (entropy(areas), entropy([d.count(p) for p in set(d)]), entropy([y - x for x, y in d]))
            rows = [tuple(map(number, row)) for row in r.rows()]
            H.equal(len(rows), 2, "entropies-rows", "number of rows")
            for row in rows:
                H.check(len(row) == 3, "entropies-columns", "columns %r" % (row,))
                if sum(areas):
                    H.check(near(row[0], want[0]), "entropies-area", "area entropy: expected %r, got %r" % (want[0], row[0]))
                H.check(near(row[1], want[1]), "entropies-grid", "grid entropy: expected %r, got %r" % (want[1], row[1]))
                H.check(near(row[2], want[2]), "entropies-persistent", "entropy: expected %r, got %r" % (want[2], row[2]))


# Signatures -----------------------------------------------------------

def explore_signatures():
    points = FINITE + [(3, 0), (4, 9)]
    for d in multisets(points, 4 if H.thorough else 3):
        for threshold, keep, normalise in itertools.product((0, 1.5), (0, 1, 4), (False, True)):
            if not (H.mine() and H.case("signature f=%g k=%d n=%d of %s" % (threshold, keep, normalise, name(d)))):
                continue
            options = (["--filter=%g" % threshold] if threshold else []) + (["-k", keep] if keep else []) + \
                (["--normalize"] if normalise else [])
            r = good("make_signature", "signature", *options, put("a.txt", text(d)), put("b.txt", text([(0, 1), (5, 6)])))
            if r is None:
                continue

            def reference(d):
                if threshold:
                    d = [p for p in d if abs(p[1] - p[0]) >= threshold]
                if normalise and d:
                    lo, hi = min(map(min, d)), max(map(max, d))
                    if lo != hi:
                        d = [((x - lo) / (hi - lo), (y - lo) / (hi - lo)) for x, y in d]
                s = sorted((min(max(abs(a[0] - b[0]), abs(a[1] - b[1])), abs(a[1] - a[0]), abs(b[1] - b[0]))
                            for a, b in itertools.combinations(d, 2)), reverse=True)
                return (s + [0] * keep)[:keep] if keep else s

            rows = [tuple(map(number, line.split())) for line in r.out.splitlines()]
            want = [tuple(reference(d)), tuple(reference([(0, 1), (5, 6)]))]
            H.check(len(rows) == 2 and all(len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
                                           for a, b in zip(rows, want)), "signature-values",
                    lambda: "expected %r, got %r" % (want, rows))


# Persistence indicator functions --------------------------------------

def pieces(content):
    rows = [tuple(map(number, line.split())) for line in content.splitlines() if line.strip()]
    if len(rows) % 2 or any(len(r) != 2 for r in rows) or any(a[1] != b[1] for a, b in zip(rows[::2], rows[1::2])):
        return None
    return [(a[0], b[0], a[1]) for a, b in zip(rows[::2], rows[1::2])]


def value(ps, x):
    return sum(y for a, b, y in ps if a < x < b)


def explore_indicator():
    finite = [p for p in FINITE if p[0] != p[1]] + [(3, 4)]
    where = [k / 2 + 0.25 for k in range(-2, 12)]

    def check(path, f, what):
        content = get(path)
        H.check(content is not None, "indicator-file", "no file for %s" % what)
        ps = pieces(content or "")
        H.check(ps is not None, "indicator-format", "unexpected content %r" % content)
        for x in where:
            H.check(ps is None or near(value(ps, x), f(x)), "indicator-values",
                    lambda: "%s at %g: expected %g, got %g" % (what, x, f(x), value(ps, x)))

    def count(d):
        return lambda x: sum(a < x < b for a, b in d)

    for d in multisets(finite, 3):
        for extra in ((), ((1, INF),)):
            for prefix, slash in ((None, True), ("X", False)):
                if not (H.mine() and H.case("indicator p=%s %s of %s" % (prefix, slash, name(d + extra)))):
                    continue
                out = wipe(scratch("pif"))
                options = ["--output=" + out + ("/" if slash else "")] + (["-p", prefix] if prefix else [])
                if good("persistence_indicator_function", "indicator", *options, put("data.txt", text(d + extra))) is None:
                    continue
                H.equal(os.listdir(out), [(prefix or "PIF_") + "data.txt"], "indicator-names", "files")
                check(os.path.join(out, (prefix or "PIF_") + "data.txt"), count(d), "function")
    # Single intervals that do not leave gaps: sums are not affected by the known finding on sums.
    for n in (1, 2):
        for ds in itertools.product([p for p in finite if p != (3, 4)], repeat=n):
            if not (H.mine() and H.case("mean indicator of %s" % name(ds))):
                continue
            out = wipe(scratch("pif"))
            r = good("persistence_indicator_function", "indicator", "--mean", "-o", out,
                     *[put("f%d.txt" % k, text([d])) for k, d in enumerate(ds)])
            if r is None:
                continue
            H.equal(sorted(os.listdir(out)), sorted(["PIF_mean.txt"] + ["PIF_f%d.txt" % k for k in range(n)]),
                    "indicator-names", "files")
            for k, d in enumerate(ds):
                check(os.path.join(out, "PIF_f%d.txt" % k), count([d]), "function %d" % k)
            check(os.path.join(out, "PIF_mean.txt"), lambda x: count(ds)(x) / n, "mean")
            integrals = [b - a for a, b in ds]
            mean = sum(integrals) / n
            reported = {line.split(":")[0].strip("* "): number(line.split(":")[1]) for line in r.err.splitlines()
                        if line.startswith("* Norm") or line.startswith("* Sample")}
            H.check(near(reported.get("Norm of the mean persistence indicator function", math.nan), mean), "indicator-norm",
                    lambda: "norm: expected %g, got %r" % (mean, reported))
            if n > 1:
                H.check(near(reported.get("Sample variance", math.nan), sum((i - mean) ** 2 for i in integrals) / (n - 1)),
                        "indicator-variance", lambda: "variance of %r: got %r" % (integrals, reported))


# Distances ------------------------------------------------------------

def cost(p, q):
    return max(abs(p[0] - q[0]), abs(p[1] - q[1]))


def matchings(a, b):
    """Costs of all matchings, points of both diagrams may be matched with the diagonal."""
    if not a:
        yield [abs(y - x) / 2 for x, y in b]
        return
    for rest in matchings(a[1:], b):
        yield [abs(a[0][1] - a[0][0]) / 2] + rest
    for k in range(len(b)):
        for rest in matchings(a[1:], b[:k] + b[k + 1:]):
            yield [cost(a[0], b[k])] + rest


def wasserstein(a, b, p):
    return min(sum(c ** p for c in m) for m in matchings(tuple(a), tuple(b)))


def bottleneck(a, b, p):
    return min(max(m, default=0) for m in matchings(tuple(a), tuple(b))) ** p


def hausdorff(a, b, p):
    if not a or not b:
        return 0 if not a and not b else INF
    return max(max(min(cost(x, y) for y in b) for x in a), max(min(cost(x, y) for x in a) for y in b)) ** p


def indicator(a, b, p):
    cuts = sorted(set(sum(a + b, ())))
    return sum((v - u) * abs(sum(x <= u and v <= y for x, y in a) - sum(x <= u and v <= y for x, y in b)) ** p
               for u, v in zip(cuts, cuts[1:]))


KINDS = {"hausdorff": (["-h"], hausdorff, True), "default": ([], hausdorff, True),
         "wasserstein": (["--wasserstein"], wasserstein, True), "bottleneck": (["-b"], bottleneck, True),
         "indicator": (["--indicator"], indicator, False)}


def processed(d, clean, unique, factor):
    if clean:
        d = [p for p in d if p[0] != p[1] and p[1] != INF]
    if unique:
        d = sorted(set(d))
    if factor and d:
        m = max(max(x for x, _ in d), max((y for _, y in d if y != INF), default=-INF))
        d = [(x, factor * m) if y == INF else (x, y) for x, y in d]
    return tuple(d)


def matrix(kind, groups, power, files, options, kernel=None, sigma=1.0, clean=False, unique=False, factor=0):
    """Groups are maps from dimensions to diagrams, in the order of the files."""
    selected, f, root = KINDS[kind]
    args = selected + (["--power=%g" % power] if power != 2 else []) + options
    if kernel:
        args += ["--kernel"] + (["-e", "--sigma=%g" % sigma] if kernel == "exp" else [])
    args += (["--clean"] if clean else []) + (["-r"] if unique else []) + (["--factor=%g" % factor] if factor else [])
    r = good("topological_distance", "distance", *args, *files)
    if r is None:
        return
    n = len(groups)
    dimensions = sorted(set(k for g in groups for k in g))
    rows = [list(map(number, row)) for row in r.rows()]
    H.check(len(rows) == n and all(len(row) == n for row in rows), "distance-shape", lambda: "matrix %r" % (rows,))
    if len(rows) != n or any(len(row) != n for row in rows):
        return
    for i, j in itertools.product(range(n), repeat=2):
        want = 0.0
        if i != j:
            want = sum(f(processed(groups[i].get(k, ()), clean, unique, factor),
                         processed(groups[j].get(k, ()), clean, unique, factor), power)
                       for k in range(dimensions[0], dimensions[-1] + 1))
            if root:
                want = want ** (1 / power) if want != INF else INF
            if kernel:
                want = -want
                if kernel == "exp":
                    want = math.exp(sigma * want)
        H.check(near(rows[i][j], want), "distance-" + kind, lambda: "entry %d,%d: expected %r, got %r" % (i, j, want, rows[i][j]))


def write(groups, suffix="d"):
    return [put("%s_%s%d.txt" % (chr(97 + i), suffix, k), text(d)) for i, g in enumerate(groups) for k, d in g.items()]


def explore_distances():
    small = list(multisets(FINITE, 2))
    single = list(multisets(FINITE, 1))
    for kind, power in itertools.product(KINDS, (1, 2, 3)):
        # Every pair of diagrams
        chosen = single if kind in ("bottleneck", "indicator") else small
        for i, a in enumerate(chosen):
            if H.mine() and H.case("%s p=%g %s and up to nine others" % (kind, power, name(a))):
                for k in range(0, len(chosen), 9):
                    groups = [{0: a}] + [{0: b} for b in chosen[k:k + 9]]
                    matrix(kind, groups, power, write(groups), [])
        # Several dimensions, some of which are missing
        options = [{}, {0: ((0, 1),)}, {1: ((0, 2),)}, {0: ((0, 2),), 1: ((1, 3),)}, {2: ((1, 3),)},
                   {0: ((2, 3),), 2: ((0, 1),)}]
        for n in (1, 2, 3):
            for groups in itertools.product(options[1:], repeat=n):
                for suffix in "dk":
                    if H.mine() and H.case("%s p=%g dimensions %s %r" % (kind, power, suffix, groups)):
                        matrix(kind, groups, power, write(groups, suffix), [])
        # Treatment of points and kernels
        mixed = [((0, 1),), ((0, 1), (0, 1)), ((1, 1), (0, 2)), ((1, INF), (0, 3)), ((2, INF),), ()]
        if kind in ("default", "wasserstein"):
            for clean, unique, factor in itertools.product((False, True), (False, True), (0, 2, 0.5)):
                if not clean and not factor:
                    continue
                for a, b in itertools.combinations(mixed, 2):
                    if H.mine() and H.case("%s p=%g clean=%d unique=%d factor=%g %s | %s" %
                                           (kind, power, clean, unique, factor, name(a), name(b))):
                        groups = [{0: a}, {0: b}]
                        matrix(kind, groups, power, write(groups), [], clean=clean, unique=unique, factor=factor)
        for kernel, sigma in ((True, 1), ("exp", 1), ("exp", 0.5)):
            for a, b in itertools.product([((0, 1),), ((0, 2),), ((1, 3),)], repeat=2):
                if H.mine() and H.case("%s p=%g kernel=%s sigma=%g %s | %s" % (kind, power, kernel, sigma, name(a), name(b))):
                    groups = [{0: a}, {0: b}]
                    matrix(kind, groups, power, write(groups), [], kernel=kernel, sigma=sigma)
    # Every number of data sets, listed in a file as well, and in JSON files
    for n in range(1, 25 if H.thorough else 13):
        groups = [{0: ((0, 1 + 2 ** (k % 5) + k),)} for k in range(n)]
        for how in ("arguments", "list", "json"):
            if H.mine() and H.case("%d data sets from %s" % (n, how)):
                files = write(groups)
                if how == "list":
                    files, options = [put("list.txt", "".join(f + "\n" for f in files))], ["--list"]
                elif how == "json":
                    files = [put("j%02d.json" % k, json.dumps(dict(diagrams=[
                        dict(betti=0, dimension=d, size=len(ps), diagram=[[str(x), str(y)] for x, y in ps])
                        for d, ps in g.items()]))) for k, g in enumerate(groups)]
                    options = []
                else:
                    options = []
                matrix("wasserstein", groups, 1, files, options)
                matrix("default", groups, 2, files, options)
    # The last selection counts
    for first, second in itertools.permutations(["hausdorff", "wasserstein", "bottleneck", "indicator"], 2):
        if H.mine() and H.case("%s after %s" % (second, first)):
            groups = [{0: ((0, 1),)}, {0: ((5, 9),)}, {0: ((5, 7),)}]
            files = write(groups)
            r = good("topological_distance", "distance", *KINDS[first][0], *KINDS[second][0], *files)
            s = good("topological_distance", "distance", *KINDS[second][0], *files)
            if r and s:
                H.equal(r.out, s.out, "distance-selection", "matrix")
    # Files without dimensions are data sets of their own
    if H.mine() and H.case("plain names"):
        groups = [{0: ((0, 1),)}, {0: ((0, 2),)}, {0: ((1, 3),)}]
        matrix("wasserstein", groups, 1, [put("plain%d.txt" % k, text(g[0])) for k, g in enumerate(groups)], [])


def explore():
    explore_statistics()
    explore_entropies()
    explore_signatures()
    explore_indicator()
    explore_distances()
    # Calls without files only print a description
    for tool in ("persistence_diagram_statistics", "persistence_diagram_entropies", "persistence_indicator_function",
                 "topological_distance"):
        if H.mine() and H.case("%s without files" % tool):
            r = run(tool)
            H.check(r.status not in (0, 88) and r.status < 1000, "usage", "status %d" % r.status)
            H.equal(r.out, "", "usage", "output")


main(explore)
