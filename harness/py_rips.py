"""Vietoris-Rips persistence of distance matrices in the Python module: the
diagrams, the edges that merge components, and the edges that create and
destroy cycles."""
import itertools

import numpy as np

import aleph
from pylayout import conversions, layouts
from pyref import INF, pairing, points, reported
from vf import H, main


def cliques(n, d, dim):
    out = []
    for k in range(1, min(n, dim + 1) + 1):
        for c in itertools.combinations(range(n), k):
            out.append((max([d[e] for e in itertools.combinations(c, 2)] + [0.0]), k, c))
    out.sort()
    return [frozenset(c) for _, _, c in out], [w for w, _, _ in out]


def found(Ds):
    return [(D.dimension, points(D)) for D in Ds]


def matrix(n, d, fill, diagonal):
    """Only the entries above the diagonal count."""
    rows = [[diagonal] * n for _ in range(n)]
    for (u, v), w in d.items():
        rows[u][v] = w
        rows[v][u] = w if fill is None else fill
    return rows


def spanning(n, d, edges, what):
    """The edges form a minimum spanning tree: a tree whose sorted weights are
    those of any other minimum spanning tree."""
    key = "spanning-tree"
    H.equal(len(edges), max(n - 1, 0), key, what + ": number of edges")
    H.check(all(0 <= u < v < n for u, v in edges), key, lambda: "%s: edges are not valid: %r" % (what, edges))
    label = list(range(n))
    for u, v in edges:
        if not (0 <= u < n and 0 <= v < n):
            return
        a, b = label[u], label[v]
        label = [a if x == b else x for x in label]
    H.check(len(set(label)) <= 1, key, lambda: "%s: the edges %r do not connect all points" % (what, edges))
    best, label = [], list(range(n))
    for (u, v), w in sorted(d.items(), key=lambda e: e[1]):
        a, b = label[u], label[v]
        if a != b:
            best.append(w)
            label = [a if x == b else x for x in label]
    H.equal(sorted(d[tuple(sorted(e))] for e in edges), best, key, what + ": weights of the edges")


def cycles(n, d, pairs):
    """Creators and destroyers of cycles realise the one-dimensional diagram."""
    key = "cycles"
    simplices, ws = cliques(n, d, 2)
    ps, _ = pairing(simplices)
    want = sorted((ws[i], ws[j]) for i, j in ps.items() if len(simplices[i]) == 2)
    for i, j, k, l in pairs:
        if not (0 <= i < j < n and 0 <= k < l < n):
            H.fail(key, "invalid edges %r" % ((i, j, k, l),))
            return
    H.equal(sorted((d[(i, j)], d[(k, l)]) for i, j, k, l in pairs), want, key, "weights of creators and destroyers")
    if len(set(d.values())) == len(d):
        # All weights differ, so the edges are determined
        exact = sorted((tuple(sorted(simplices[i])), max(itertools.combinations(sorted(simplices[j]), 2), key=lambda e: d[e]))
                       for i, j in ps.items() if len(simplices[i]) == 2 and ws[i] != ws[j])
        H.equal(sorted(((i, j), (k, l)) for i, j, k, l in pairs if d[(i, j)] != d[(k, l)]), exact, key, "persistent creators and destroyers")


def one(n, d, deep):
    key = "rips"
    rows = matrix(n, d, None, 0.0)
    for dim in range(0, n + 1):
        want = reported(*cliques(n, d, max(dim, 1)))
        Ds = aleph.vietoris_rips_from_matrix(np.array(rows).reshape(n, n), dim) if dim else \
            aleph.vietoris_rips_from_matrix(np.array(rows).reshape(n, n))
        H.equal(found(Ds), want, key, "diagrams up to dimension %d" % dim)
    for fill, diagonal in ((None, 0.0), (-7.0, 9.0)):
        rows = matrix(n, d, fill, diagonal)
        arrays = layouts(rows, (n, n))
        if deep:
            arrays = itertools.chain(arrays, conversions(rows, (n, n)) if fill is None else [])
        for name, A in arrays:
            if deep:
                want = reported(*cliques(n, d, 2))
                H.equal(found(aleph.vietoris_rips_from_matrix(A, max_dimension=2)), want, key, name + " matrix: diagrams")
            spanning(n, d, aleph.vietoris_rips_from_matrix_1d(A), name + " matrix, edges")
            edges, pairs = aleph.vietoris_rips_from_matrix_2d(A)
            spanning(n, d, edges, name + " matrix, edges with cycles")
            cycles(n, d, pairs)
            if not deep:
                break


def explore():
    for n in range(1, 5):
        es = list(itertools.combinations(range(n), 2))
        for ws in itertools.product((1.0, 2.0, 3.0, 5.0)[:4 if n < 4 else 3], repeat=len(es)):
            if H.mine() and H.case("distances %d %r" % (n, ws)):
                H.guarded("rips", lambda: one(n, dict(zip(es, ws)), True))
    # All orders of the six distances between four points
    es = list(itertools.combinations(range(4), 2))
    for ws in itertools.permutations((1.0, 2.0, 3.0, 4.0, 5.0, 6.0)):
        if H.mine() and H.case("distances 4 %r" % (ws,)):
            H.guarded("rips", lambda: one(4, dict(zip(es, ws)), False))
    # Five points, two distances
    es = list(itertools.combinations(range(5), 2))
    for ws in itertools.product((1.0, 2.0), repeat=len(es)):
        if H.mine() and H.case("distances 5 %r" % (ws,)):
            H.guarded("rips", lambda: one(5, dict(zip(es, ws)), False))
    # Five points, distinct distances: every rotation of orders with a long cycle
    if H.thorough:
        cycle = [(0, 1), (1, 2), (2, 3), (3, 4), (0, 4)]
        rest = [e for e in es if e not in cycle]
        for p in itertools.permutations(cycle):
            for q in itertools.permutations(rest):
                if H.mine():
                    d = {e: float(i) for i, e in enumerate(p + q, 1)}
                    if H.case("distances 5 %r" % (tuple(d[e] for e in es),)):
                        H.guarded("rips", lambda: one(5, d, False))
    if H.mine() and H.case("unsupported matrices"):
        for f in (aleph.vietoris_rips_from_matrix, aleph.vietoris_rips_from_matrix_1d, aleph.vietoris_rips_from_matrix_2d):
            for name, A in (("vector", np.zeros(3)), ("cube", np.zeros((2, 2, 2))), ("wide", np.zeros((2, 3))), ("tall", np.zeros((3, 2)))):
                H.raises(RuntimeError, lambda: f(A), "rips", name)


main(explore)
