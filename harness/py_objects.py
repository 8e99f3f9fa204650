"""Objects of the Python module: simplices, simplicial complexes, persistence
diagrams, pairings and step functions behave like the sets, sequences and
functions they stand for, and stay valid as long as they are in use."""
import gc
import itertools

import numpy as np

import aleph
from aleph import PersistenceDiagram, PersistencePairing, Simplex, SimplicialComplex, StepFunction
from pyref import INF, complexes, points, reported
from vf import H, main

ALPHABET = [0, 1, 2, 5]
WEIGHTS = [0.0, 0.5, -1.0, 3.0]


def churn():
    """Reuses memory that has been given back."""
    return [Simplex([7, 8, 9, 10]) for _ in range(4)]


def vertex_lists(n):
    for k in range(n + 1):
        yield from itertools.product(ALPHABET, repeat=k)


def simplex(vs, w):
    key = "simplex"
    ref = sorted(set(vs), reverse=True)
    s = Simplex(list(vs)) if w is None else Simplex(list(vs), w)
    H.equal(len(s), len(ref), key, "number of vertices")
    H.equal(sorted(s), sorted(ref), key, "iterated vertices")
    order = list(s)
    H.equal(list(reversed(s)), order[::-1], key, "reversed iteration")
    H.equal([s[i] for i in range(len(ref))], order, key, "indexed vertices")
    for i in (len(ref), len(ref) + 1, 1000):
        H.raises(IndexError, lambda: s[i], key, "vertex index %d" % i)
    for v in ALPHABET + [3]:
        H.equal(v in s, v in ref, key, "membership of %d" % v)
    H.equal(bool(s), bool(ref), key, "truth value")
    H.equal(s.empty, not ref, key, "empty")
    H.equal(s.data, 0.0 if w is None else w, key, "data")
    H.equal(s.weight, 0.0 if w is None else w, key, "weight")
    if ref:
        H.equal(s.dimension, len(ref) - 1, key, "dimension")
    else:
        H.raises(RuntimeError, lambda: s.dimension, key, "dimension of the empty simplex")
    faces = [frozenset(f) for f in s.boundary]
    want = [frozenset(f) for f in itertools.combinations(ref, len(ref) - 1)] if len(ref) > 1 else []
    H.equal(sorted(map(sorted, faces)), sorted(map(sorted, want)), key, "boundary")
    H.check(len(repr(s)) > 0, key, "no representation")

    # Iterators outlive the expression that yields the simplex
    it, rt, bt = iter(Simplex(list(vs))), reversed(Simplex(list(vs))), Simplex(list(vs)).boundary
    gc.collect()
    junk = churn()
    H.equal(list(it), order, key, "iterator of a temporary simplex")
    H.equal(list(rt), order[::-1], key, "reverse iterator of a temporary simplex")
    H.equal(sorted(sorted(f) for f in bt), sorted(map(sorted, want)), key, "boundary of a temporary simplex")
    del junk

    # Copies with other data, and assignments of data
    t = Simplex(s, 2.5)
    H.equal((list(t), t.data, s.data), (order, 2.5, 0.0 if w is None else w), key, "copy with other data")
    t.data = -4.0
    H.equal((t.data, t.weight), (-4.0, -4.0), key, "assigned data")
    t.weight = 8.0
    H.equal((t.data, t.weight, list(t)), (8.0, 8.0, order), key, "assigned weight")
    H.check(t == s and not t != s, key, "weight affects equality")


def simplex_pair(u, v):
    key = "simplex-pair"
    s, t = Simplex(list(u), 1.0), Simplex(list(v), 2.0)
    a, b = frozenset(u), frozenset(v)
    H.equal(s == t, a == b, key, "equality")
    H.equal(s != t, a != b, key, "inequality")
    H.equal((s < t) + (t < s), int(a != b), key, "comparison in both directions")
    if a < b:
        H.check(s < t, key, "a face is not smaller than its coface")


def build(kind, simplices, weights):
    out = []
    for i, (s, w) in enumerate(zip(simplices, weights)):
        k = kind if kind < 3 else i % 3
        if k == 0:
            out.append(Simplex(sorted(s), w))
        elif k == 1:
            out.append((sorted(s, reverse=True), w))
        else:
            out.append(sorted(s))
    return SimplicialComplex(out), [0.0 if (kind if kind < 3 else i % 3) == 2 else w for i, w in enumerate(weights)]


def content(K):
    return [(frozenset(s), s.data) for s in K]


def complex_(kind, simplices, weights):
    key = "complex"
    K, weights = build(kind, simplices, weights)
    want = list(zip(simplices, weights))
    H.equal(content(K), want, key, "content")
    H.equal(len(K), len(want), key, "size")
    H.equal(bool(K), bool(want), key, "truth value")
    H.equal([(frozenset(K[i]), K[i].data) for i in range(len(want))], want, key, "indexed simplices")
    for i in (len(want), len(want) + 1, 10 ** 6):
        H.raises(IndexError, lambda: K[i], key, "simplex index %d" % i)
    H.raises((TypeError, IndexError), lambda: K[-len(want) - 1], key, "negative simplex index")
    universe = [frozenset(c) for k in (1, 2, 3) for c in itertools.combinations(range(4), k)]
    for s in universe:
        H.equal(Simplex(sorted(s)) in K, s in simplices, key, "membership of %r" % sorted(s))
    if want:
        H.equal(K.dimension, max(len(s) for s in simplices) - 1, key, "dimension")

    # Simplices and iterators outlive the complex
    it = iter(build(kind, simplices, weights)[0])
    kept = [s for s in build(kind, simplices, weights)[0]]
    first = build(kind, simplices, weights)[0][0] if want else None
    gc.collect()
    junk = churn()
    H.equal([(frozenset(s), s.data) for s in it], want, key, "iterator of a temporary complex")
    H.equal([(frozenset(s), s.data) for s in kept], want, key, "simplices of a temporary complex")
    if want:
        H.equal((frozenset(first), first.data), want[0], key, "simplex of a temporary complex")
    del junk

    # Growing: new simplices go to the end, known ones are not repeated
    for s in universe:
        L, _ = build(kind, simplices, weights)
        L.append(Simplex(sorted(s), 9.0))
        H.equal(content(L), want + ([] if s in simplices else [(s, 9.0)]), key, "appended simplex %r" % sorted(s))
        L, _ = build(kind, simplices, weights)
        L.append(sorted(s))
        H.equal(content(L), want + ([] if s in simplices else [(s, 0.0)]), key, "appended vertices %r" % sorted(s))

    # Sorting, in place; the result is the complex as well
    L, _ = build(kind, simplices, weights)
    M = L.sort()
    order = sorted((Simplex(sorted(s)) for s, _ in want))
    w = dict(want)
    H.equal(content(L), [(frozenset(s), w[frozenset(s)]) for s in order], key, "sorted complex")
    H.equal(content(M), content(L), key, "result of sorting")
    for name, f in (("by weight", lambda s, t: s.data < t.data),
                    ("by decreasing weight", lambda s, t: s.data > t.data),
                    ("by size and vertices", lambda s, t: (len(s), sorted(s)) > (len(t), sorted(t)))):
        L, _ = build(kind, simplices, weights)
        M = L.sort(f)
        got = content(L)
        H.equal(sorted((sorted(s), x) for s, x in got), sorted((sorted(s), x) for s, x in want), key, "content when sorted " + name)
        obj = [Simplex(sorted(s), x) for s, x in got]
        H.check(not any(f(obj[j], obj[i]) for i in range(len(obj)) for j in range(i + 1, len(obj))), key, "not sorted " + name)
        H.equal(content(M), got, key, "result when sorted " + name)


def check_diagram(D, want, dim, key):
    H.equal(points(D), want, key, "points")
    H.equal(len(D), len(want), key, "size")
    H.equal(bool(D), bool(want), key, "truth value")
    H.equal(D.betti, sum(y == INF for _, y in want), key, "Betti number")
    H.equal(D.dimension, dim, key, "dimension")
    A = np.array(D)
    H.equal(A.shape, (len(want), 2), key, "shape of the array")
    H.equal([tuple(r) for r in A.tolist()], [(p.x, p.y) for p in D], key, "array")
    H.equal(sorted(tuple(float(x) for x in line.split()) for line in repr(D).splitlines() if line.split()), want, key, "representation")
    for p in D:
        H.equal(p.unpaired, p.y == INF, key, "unpaired")
        H.equal(p.persistence, p.y - p.x, key, "persistence")


def diagram(simplices, weights):
    key = "diagram"
    K = SimplicialComplex([(sorted(s), w) for s, w in zip(simplices, weights)])
    ref = reported(simplices, weights)
    Ds = aleph.calculatePersistenceDiagrams(K)
    H.equal([D.dimension for D in Ds], [d for d, _ in ref], key, "dimensions")
    for i, (d, want) in enumerate(ref):
        check_diagram(Ds[i], want, d, key)
        D = Ds[i]
        D.removeDiagonal()
        check_diagram(D, [p for p in want if p[0] != p[1]], d, key)
        D.removeUnpaired()
        check_diagram(D, [p for p in want if p[0] != p[1] and p[1] != INF], d, key)
        E = aleph.calculatePersistenceDiagrams(K)[i]
        E.removeUnpaired()
        check_diagram(E, [p for p in want if p[1] != INF], d, key)
        E.dimension = 7
        check_diagram(E, [p for p in want if p[1] != INF], 7, key)
        F = aleph.calculatePersistenceDiagrams(K)[i]
        F.removeUnpaired()
        F.removeDiagonal()
        H.check(F == D and not F != D, key, "equal diagrams differ")
        if len(want) != len(D):
            G = aleph.calculatePersistenceDiagrams(K)[i]
            H.check(G != D and not G == D, key, "different diagrams are equal")

    if not ref:
        return
    ref = [want for _, want in ref]

    # Points, iterators and arrays outlive the diagram
    def fresh():
        return aleph.calculatePersistenceDiagrams(K)[0]
    it, ps, A = iter(fresh()), list(fresh()), np.array(fresh())
    gc.collect()
    junk = [aleph.calculatePersistenceDiagrams(K) for _ in range(2)]
    H.equal(sorted((p.x, p.y) for p in it), ref[0], key, "iterator of a temporary diagram")
    H.equal(sorted((p.x, p.y) for p in ps), ref[0], key, "points of a temporary diagram")
    H.equal(sorted(map(tuple, A.tolist())), ref[0], key, "array of a temporary diagram")
    del junk


def point(x, y):
    key = "point"
    Point = getattr(aleph, "PersistenceDiagram.Point")
    p = Point(x) if y is None else Point(x, y)
    yy = INF if y is None else y
    H.equal((p.x, p.y), (x, yy), key, "coordinates")
    H.equal(p.unpaired, yy == INF, key, "unpaired")
    H.equal(p.persistence, yy - x, key, "persistence")
    for a, b in itertools.product(WEIGHTS, WEIGHTS):
        q = Point(a, b)
        H.equal((p == q, p != q), ((a, b) == (x, yy), (a, b) != (x, yy)), key, "comparison with (%g,%g)" % (a, b))


def load(ps, name="d"):
    path = "%s/%s.txt" % (H.scratch, name)
    with open(path, "w") as f:
        for x, y in ps:
            f.write("%r\t%r\n" % (x, y))
    return aleph.load_persistence_diagram(path)


def evaluate(ps, x):
    return float(sum(a < x < b for a, b in ps))


GRID = [i / 2 + 0.25 for i in range(-3, 10)]


def step(ps):
    """The persistence indicator function counts the intervals around a point."""
    key = "step"
    D = load(ps)
    finite = [p for p in ps]
    for name, make in (("constructor", lambda: StepFunction(D)), ("function", lambda: aleph.make_persistence_indicator_function(D))):
        f = make()
        for x in GRID:
            H.equal(f(x), evaluate(finite, x), key, "%s: value at %g" % (name, x))
        H.close(f.integral, sum(b - a for a, b in finite), key, name + ": integral")
        m = max([evaluate(finite, x) for x in GRID] + [0.0])
        if finite:
            H.check(f.max >= m, key, name + ": maximum too small")
            H.check(f.sup >= m, key, name + ": supremum too small")
        g = -f
        for x in GRID:
            H.equal(g(x), -evaluate(finite, x), key, "%s: negated value at %g" % (name, x))
            H.equal(f(x), evaluate(finite, x), key, "%s: value at %g after negation" % (name, x))
        h = abs(g)
        for x in GRID:
            H.equal(h(x), evaluate(finite, x), key, "%s: absolute value at %g" % (name, x))
            H.equal(g(x), -evaluate(finite, x), key, "%s: value at %g after taking absolute values" % (name, x))


def step_pair(p, q):
    key = "step-pair"
    f, g = StepFunction(load([p])), StepFunction(load([q]))
    s, d = f + g, f - g
    i, j = StepFunction(load([p])), StepFunction(load([p]))
    i += g
    j -= g
    for x in GRID:
        a, b = evaluate([p], x), evaluate([q], x)
        H.equal(s(x), a + b, key, "sum at %g" % x)
        H.equal(d(x), a - b, key, "difference at %g" % x)
        H.equal(i(x), a + b, key, "in-place sum at %g" % x)
        H.equal(j(x), a - b, key, "in-place difference at %g" % x)
        H.equal((f(x), g(x)), (a, b), key, "operands at %g" % x)
    lf, lg = p[1] - p[0], q[1] - q[0]
    H.close(s.integral, lf + lg, key, "integral of the sum")
    H.close(d.integral, lf - lg, key, "integral of the difference")


def explore():
    n = 5 if H.thorough else 4
    for vs in vertex_lists(n):
        for w in [None] + (WEIGHTS if len(vs) <= 3 else WEIGHTS[:1]):
            if H.mine() and H.case("simplex %r weight %r" % (vs, w)):
                H.guarded("simplex", lambda: simplex(vs, w))
    for u in vertex_lists(3):
        if not H.mine():
            continue
        for v in vertex_lists(3):
            if H.case("simplices %r %r" % (u, v)):
                H.guarded("simplex-pair", lambda: simplex_pair(u, v))
    for v in (0, 3):
        for w in WEIGHTS:
            if H.mine() and H.case("vertex %d weight %g" % (v, w)):
                s = Simplex(v, w)
                H.equal((list(s), s.data), ([v], w), "vertex", "vertex with data")

    for k in range(1, 5):
        for K in complexes(k):
            for name, order in (("size", K), ("reverse", K[::-1]), ("mixed", K[1::2] + K[::2])):
                for kind in range(4):
                    for ws in ([float(len(s)) for s in order], [WEIGHTS[i % 4] for i in range(len(order))]):
                        if H.mine() and H.case("complex %r order %s kind %d weights %r" % ([sorted(s) for s in K], name, kind, ws)):
                            H.guarded("complex", lambda: complex_(kind, order, ws))
    if H.mine() and H.case("complex empty"):
        H.guarded("complex", lambda: complex_(0, [], []))
        H.equal((len(SimplicialComplex()), bool(SimplicialComplex())), (0, False), "complex", "empty complex")
        H.equal((len(PersistenceDiagram()), bool(PersistenceDiagram()), PersistenceDiagram().betti), (0, False, 0), "diagram", "empty diagram")
        H.equal((len(PersistencePairing()), bool(PersistencePairing())), (0, False), "pairing", "empty pairing")
        H.equal(np.array(PersistenceDiagram()).shape, (0, 2), "diagram", "array of an empty diagram")
        H.equal(np.array(PersistencePairing()).shape, (0, 2), "pairing", "array of an empty pairing")
        H.raises((RuntimeError, TypeError, ValueError), lambda: SimplicialComplex([([0], 1.0, 2.0)]), "complex", "tuple of three elements")

    for k in range(1, 5):
        for K in complexes(k):
            K = sorted(K, key=lambda s: (len(s), sorted(s)))
            for ws in ([0.0] * len(K), [float(len(s) // 2) for s in K], [float(i) for i in range(len(K))]):
                if H.mine() and H.case("diagram %r weights %r" % ([sorted(s) for s in K], ws)):
                    H.guarded("diagram", lambda: diagram(K, ws))
    for x in WEIGHTS:
        for y in [None, INF] + WEIGHTS:
            if H.mine() and H.case("point %r %r" % (x, y)):
                H.guarded("point", lambda: point(x, y))

    intervals = [(float(a), float(b)) for a in range(4) for b in range(a + 1, 5)]
    for k in range(4 if H.thorough else 3):
        for ps in itertools.combinations_with_replacement(intervals, k):
            if H.mine() and H.case("step function of %r" % (ps,)):
                H.guarded("step", lambda: step(ps))
    for p in intervals:
        for q in intervals:
            if H.mine() and H.case("step functions of %r and %r" % (p, q)):
                H.guarded("step-pair", lambda: step_pair(p, q))


main(explore)
