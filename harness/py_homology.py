"""Calculations of the Python module: persistent homology of complexes, point
clouds and weight matrices, Rips expansion, distances, kernels, norms and
loading of files."""
import itertools
import math

import numpy as np

import aleph
from aleph import RipsExpander, SimplicialComplex
from pylayout import conversions, layouts
from pyref import INF, complexes, components, points, reported
from vf import H, main


def found(Ds):
    return [(D.dimension, points(D)) for D in Ds]


def weightings(K, levels):
    """All monotone weight assignments with the given levels."""
    def rec(i, w):
        if i == len(K):
            yield dict(w)
            return
        s = K[i]
        low = max([w[f] for f in K[:i] if f < s] + [levels[0]])
        for x in levels:
            if x >= low:
                w[s] = x
                yield from rec(i + 1, w)
        w.pop(s, None)
    yield from rec(0, {})


def filtration(K, w):
    key = "filtration"
    order = sorted(K, key=lambda s: (w[s], len(s), sorted(s)))
    ws = [w[s] for s in order]
    C = SimplicialComplex([(sorted(s), w[s]) for s in order])
    H.equal(found(aleph.calculatePersistenceDiagrams(C)), reported(order, ws), key, "diagrams")

    # Connected components only; points on the diagonal are not reported
    vs = [(min(s), w[s]) for s in order if len(s) == 1]
    es = [(min(s), max(s), w[s]) for s in order if len(s) == 2]
    index = {s: i for i, s in enumerate(order)}
    want, pairs = [], []
    unpaired = 0
    for v, e in components(vs, es):
        i = index[frozenset([vs[v][0]])]
        if e is None:
            unpaired += 1
            want.append((vs[v][1], INF))
            pairs.append((i, None))
        elif vs[v][1] != es[e][2]:
            want.append((vs[v][1], es[e][2]))
            pairs.append((i, index[frozenset(es[e][:2])]))
    for u in (None, INF, 9.0, -3.0):
        D, P = aleph.calculateZeroDimensionalPersistenceDiagramAndPairing(C) if u is None \
            else aleph.calculateZeroDimensionalPersistenceDiagramAndPairing(C, unpairedData=u)
        sub = u if u is not None else INF
        H.equal(points(D), sorted((x, sub if y == INF else y) for x, y in want), key, "components, unpaired data %r" % u)
        got = [(a, b if b < len(order) else None) for a, b in P]
        H.equal(sorted(got, key=str), sorted(pairs, key=str), key, "pairing of components")
        H.equal((len(P), bool(P)), (len(pairs), bool(pairs)), key, "size of the pairing")
        A = np.array(P)
        H.equal(A.shape, (len(pairs), 2), key, "shape of the pairing")
        H.equal([tuple(r) for r in A.tolist()], [(float(a), float(b)) for a, b in P], key, "array of the pairing")
    Q = aleph.calculateZeroDimensionalPersistenceDiagramAndPairing(C)[1]
    R = aleph.calculateZeroDimensionalPersistenceDiagramAndPairing(C)[1]
    H.check(Q == R and not Q != R, key, "equal pairings differ")


def rips(pts, eps, dim):
    """Reference diagrams of a Vietoris-Rips complex."""
    n, d = len(pts), len(pts[0])
    dim = dim or d + 1

    def dist(a, b):
        return math.sqrt(sum((x - y) ** 2 for x, y in zip(pts[a], pts[b])))
    simplices = []
    for k in range(1, min(n, dim + 1) + 1):
        for c in itertools.combinations(range(n), k):
            w = max([dist(a, b) for a, b in itertools.combinations(c, 2)] + [0.0])
            if w <= eps:
                simplices.append((w, k, c))
    simplices.sort()
    return [frozenset(c) for _, _, c in simplices], [w for w, _, _ in simplices]


def same(got, want):
    return [d for d, _ in got] == [d for d, _ in want] and all(
        len(a) == len(b) and all(abs(p[0] - q[0]) < 1e-9 and (p[1] == q[1] or abs(p[1] - q[1]) < 1e-9) for p, q in zip(a, b))
        for (_, a), (_, b) in zip(got, want))


def cloud(pts, eps):
    key = "cloud"
    shape = (len(pts), len(pts[0]))
    for dim in (0, 1, 2, 3):
        want = reported(*rips(pts, eps, dim))
        for name, A in layouts(pts, shape):
            before = A.copy()
            Ds = aleph.calculatePersistenceDiagrams(A, eps, dim) if dim else aleph.calculatePersistenceDiagrams(A, epsilon=eps)
            H.check(same(found(Ds), want), key, lambda: "%s array, dimension %d: expected %r, got %r" % (name, dim, want, found(Ds)))
            H.check((A == before).all(), key, "array has been changed")
            if dim > 1 and name == "Fortran":
                break


def bipartite(rows, shape):
    """Matrices of weights between the two parts of a bipartite graph."""
    key = "matrix"
    n, m = shape
    M = [[rows[i * m + j] for j in range(m)] for i in range(n)]
    for reverse, vw, u in ((None, None, None), (True, 2.0, None), (True, 1.0, 0.25), (False, 0.0, None), (False, -1.0, 7.0)):
        w = 1.0 if vw is None else vw
        rev = reverse is None or reverse
        es = [(i, n + j, M[i][j]) for i in range(n) for j in range(m)]
        es.sort(key=lambda e: -e[2] if rev else e[2])
        vs = [(v, w) for v in range(n + m)]
        sub = INF if u is None else u
        want = []
        for v, e in components(vs, es):
            if e is None:
                want.append((w, sub))
            elif es[e][2] != w:
                want.append((w, es[e][2]))
        kw = {}
        if reverse is not None:
            kw = dict(reverseFiltration=reverse, vertexWeight=vw)
        if u is not None:
            kw["unpairedData"] = u
        for name, A in itertools.chain(layouts(rows, shape), conversions(rows, shape)):
            if n == 0 or m == 0:
                A = np.zeros(shape)
            D = aleph.calculateZeroDimensionalPersistenceDiagramOfMatrix(A, **kw)
            H.equal(points(D), sorted(want), key, "%s matrix with %r" % (name, kw))


def expansion(K, w):
    """All cliques of the 1-skeleton, weighted by their largest edge."""
    key = "expansion"
    n = max(max(s) for s in K) + 1
    G = [s for s in K if len(s) <= 2]
    C = SimplicialComplex([(sorted(s), w[s]) for s in G])
    for dim in range(1, n + 1):
        want = {}
        for k in range(1, dim + 2):
            for c in itertools.combinations(range(n), k):
                if all(frozenset(e) in G for e in itertools.combinations(c, 2)) and frozenset(c[:1]) in G:
                    c = frozenset(c)
                    want[c] = max(w[f] for f in G if f <= c)
        r = RipsExpander()
        L = r(C, dim)
        H.equal(sorted(sorted(s) for s in L), sorted(sorted(s) for s in want), key, "cliques up to dimension %d" % dim)
        L = r.assignMaximumWeight(L, 1)
        H.equal(sorted((sorted(s), s.data) for s in L), sorted((sorted(s), x) for s, x in want.items()), key, "weights up to dimension %d" % dim)


def diagram(ps, name="d"):
    path = "%s/%s.txt" % (H.scratch, name)
    with open(path, "w") as f:
        f.write("# comment\n")
        for x, y in ps:
            f.write("%r\t%r\n" % (x, y))
    return aleph.load_persistence_diagram(path)


def norms(ps):
    key = "norms"
    D = diagram(ps)
    H.equal(points(D), sorted(ps), key, "loaded points")
    pers = [abs(y - x) for x, y in ps]
    total = sum(p * p for p in pers)
    H.close(aleph.norms.totalPersistence(D), total, key, "total persistence")
    H.close(aleph.norms.pNorm(D), total ** 0.5, key, "norm")
    H.close(aleph.norms.infinityNorm(D), max(pers + [0.0]), key, "infinity norm")
    for k in (1.0, 3.0):
        H.close(aleph.norms.totalPersistence(D, k), sum(p ** k for p in pers), key, "total persistence, k=%g" % k)
        H.close(aleph.norms.pNorm(D, k=k), sum(p ** k for p in pers) ** (1 / k), key, "norm, k=%g" % k)
        weighted = sum(abs(x) * abs(y - x) ** k for x, y in ps)
        H.close(aleph.norms.totalPersistence(D, k, True), weighted, key, "weighted total persistence, k=%g" % k)
        H.close(aleph.norms.pNorm(D, weighted=True, k=k), weighted ** (1 / k), key, "weighted norm, k=%g" % k)
    H.raises(RuntimeError, lambda: aleph.norms.pNorm(D, 0.0), key, "norm for exponent zero")


def matchings(P, Q):
    """All partial matchings; unmatched points go to the diagonal."""
    if not P:
        yield [(None, q) for q in Q]
        return
    for rest in matchings(P[1:], Q):
        yield [(P[0], None)] + rest
    for i in range(len(Q)):
        for rest in matchings(P[1:], Q[:i] + Q[i + 1:]):
            yield [(P[0], Q[i])] + rest


def cost(p, q):
    if p is None or q is None:
        x, y = p or q
        return abs(y - x) / 2
    return max(abs(p[0] - q[0]), abs(p[1] - q[1]))


def distances(P, Q):
    key = "distances"
    D, E = diagram(P, "p"), diagram(Q, "q")
    for p in (1.0, 2.0):
        want = min(sum(cost(a, b) ** p for a, b in m) for m in matchings(P, Q)) ** (1 / p)
        H.close(aleph.wassersteinDistance(D, E, p), want, key, "Wasserstein distance, p=%g" % p)
        if p == 1.0:
            H.close(aleph.wassersteinDistance(D, E), want, key, "Wasserstein distance")
    if len(P) <= 1 and len(Q) <= 1:
        want = min(max([cost(a, b) for a, b in m] + [0.0]) for m in matchings(P, Q))
        H.close(aleph.bottleneckDistance(D, E), want, key, "bottleneck distance")
    if P and Q:
        def d(a, b):
            return max(abs(a[0] - b[0]), abs(a[1] - b[1]))
        want = max(max(min(d(a, b) for b in Q) for a in P), max(min(d(a, b) for a in P) for b in Q))
        H.close(aleph.hausdorffDistances(D, E), want, key, "Hausdorff distance")
    for s in (0.5, 2.0):
        a, b, c = aleph.multiScaleKernel(D, D, s), aleph.multiScaleKernel(E, E, s), aleph.multiScaleKernel(D, E, s)
        H.close(aleph.multiScaleKernel(E, D, s), c, key, "symmetry of the kernel")
        H.close(aleph.multiScalePseudoMetric(D, E, s) ** 2, max(a + b - 2 * c, 0.0), key, "pseudo-metric of the kernel")


def files(edges):
    """Loading a weighted graph, with and without a functor for weights."""
    key = "files"
    n = 3
    path = "%s/g.txt" % H.scratch
    with open(path, "w") as f:
        for u, v, w in edges:
            f.write("%d %d %r\n" % (u, v, w))
    K = aleph.load(path)
    want = sorted([([v], 0.0) for v in set(itertools.chain(*[e[:2] for e in edges]))] + [(sorted(e[:2]), e[2]) for e in edges])
    H.equal(sorted((sorted(s), s.data) for s in K), want, key, "edge list")

    weights = [1.0, 2.5, -4.0]
    path = "%s/g.gml" % H.scratch
    with open(path, "w") as f:
        f.write("graph [\n")
        for v in range(n):
            f.write("node [\nid %d\nweight %r\n]\n" % (v, weights[v]))
        for u, v, _ in edges:
            f.write("edge [\nsource %d\ntarget %d\n]\n" % (u, v))
        f.write("]\n")
    for name, g, ref in (("maximum", None, max), ("minimum", min, min), ("mean", lambda a, b: (a + b) / 2, lambda a, b: (a + b) / 2)):
        K = aleph.load(path) if g is None else aleph.load(path, g)
        want = sorted([([v], weights[v]) for v in range(n)] + [(sorted(e[:2]), ref(weights[e[0]], weights[e[1]])) for e in edges])
        H.check(K is not None, key, name + ": no result")
        if K is not None:
            H.equal(sorted((sorted(s), s.data) for s in K), want, key, "GML file, %s of vertex weights" % name)
    for f in (aleph.load, aleph.load_persistence_diagram):
        H.raises(RuntimeError, lambda: f("%s/none.txt" % H.scratch), key, "missing file")


def explore():
    for k in range(1, 5):
        for K in complexes(k):
            K = sorted(K, key=lambda s: (len(s), sorted(s)))
            levels = [0.0, 1.0, 2.0] if k < 4 else [0.0, 1.0]
            if not H.mine():
                continue
            if k == 4 and (not H.thorough or len(K) > 11):
                # Weights by dimension, by index and by the largest vertex
                todo = [{s: float(len(s)) for s in K}, {s: float(i) for i, s in enumerate(K)}, {s: float(max(s)) for s in K},
                        {s: float(4 - min(s)) for s in K}]
            else:
                todo = weightings(K, levels)
            for w in todo:
                if H.case("complex %r weights %r" % ([sorted(s) for s in K], [w[s] for s in K])):
                    H.guarded("filtration", lambda: filtration(K, w))
                    if max(len(s) for s in K) <= 2:
                        H.guarded("expansion", lambda: expansion(K, w))

    grid = [(float(x), float(y)) for x in (0, 1, 3) for y in (0, 2)]
    line = [(float(x),) for x in (0, 1, 3, 6)]
    space = [(0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (0.0, 2.0, 0.0), (0.0, 0.0, 4.0), (1.0, 2.0, 4.0)]
    for base in (grid, line, space):
        for k in range(1, 5):
            for pts in itertools.permutations(base, k) if k < 3 else itertools.combinations(base, k):
                for eps in (0.5, 1.5, 2.5, 3.5, 9.5):
                    if H.mine() and H.case("points %r scale %g" % (pts, eps)):
                        H.guarded("cloud", lambda: cloud(pts, eps))
    if H.mine() and H.case("unsupported buffers"):
        for name, A in (("vector", np.zeros(3)), ("cube", np.zeros((2, 2, 2)))):
            H.raises(RuntimeError, lambda: aleph.calculatePersistenceDiagrams(A, 1.0), "buffer", name)
            H.raises(RuntimeError, lambda: aleph.calculateZeroDimensionalPersistenceDiagramOfMatrix(A), "buffer", name)
        for name, A in (("integers", np.zeros((2, 2), dtype=np.int64)), ("single precision", np.zeros((2, 2), dtype=np.float32))):
            H.raises((RuntimeError, TypeError), lambda: aleph.calculatePersistenceDiagrams(A, 1.0), "buffer", name)

    values = (0.0, 0.5, 1.0)
    for shape in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)):
        vs = values
        for rows in itertools.product(vs, repeat=shape[0] * shape[1]):
            if H.mine() and H.case("matrix %r %r" % (shape, rows)):
                H.guarded("matrix", lambda: bipartite(rows, shape))

    pool = [(0.0, 1.0), (0.0, 4.0), (1.0, 2.0), (2.0, 5.0), (-1.0, 0.0), (3.0, 3.0)]
    for k in range(4):
        for ps in itertools.combinations_with_replacement(pool, k):
            if H.mine() and H.case("norms of %r" % (ps,)):
                H.guarded("norms", lambda: norms(list(ps)))
    diagrams = [ps for k in range(3) for ps in itertools.combinations_with_replacement(pool[:5], k)]
    for P in diagrams:
        if not H.mine():
            continue
        for Q in diagrams:
            if H.case("distances of %r and %r" % (P, Q)):
                H.guarded("distances", lambda: distances(list(P), list(Q)))

    possible = [(0, 1), (0, 2), (1, 2)]
    for k in range(4):
        for es in itertools.combinations(possible, k):
            for ws in itertools.product((1.0, 2.5), repeat=k):
                if H.mine() and H.case("graph %r %r" % (es, ws)):
                    H.guarded("files", lambda: files([(u, v, w) for (u, v), w in zip(es, ws)]))


main(explore)
