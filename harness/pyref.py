"""Reference constructions for the explorers of the Python module: everything
is written down directly from the definitions, on frozensets."""
import itertools

INF = float("inf")


def subsets(n, k=None):
    for r in range(1, n + 1) if k is None else [k]:
        for c in itertools.combinations(range(n), r):
            yield frozenset(c)


def complexes(n):
    """All simplicial complexes whose vertices are exactly 0, ..., n-1."""
    base = [frozenset([v]) for v in range(n)]
    higher = [s for s in subsets(n) if len(s) > 1]

    def rec(i, chosen):
        if i == len(higher):
            yield base + chosen
            return
        yield from rec(i + 1, chosen)
        s = higher[i]
        if all(frozenset(f) in chosen for f in itertools.combinations(s, len(s) - 1) if len(f) > 1):
            yield from rec(i + 1, chosen + [s])
    yield from rec(0, [])


def rank(rows):
    """Rank over GF(2) of rows given as integers."""
    basis = []
    for r in rows:
        for b in basis:
            r = min(r, r ^ b)
        if r:
            basis.append(r)
    return len(basis)


def pairing(simplices):
    """Persistence pairing of a filtration, from ranks of lower-left submatrices:
    (i,j) is a pair iff r(i,j) - r(i+1,j) + r(i+1,j-1) - r(i,j-1) = 1."""
    n = len(simplices)
    index = {s: i for i, s in enumerate(simplices)}
    columns = [sum(1 << index[frozenset(f)] for f in itertools.combinations(s, len(s) - 1)) if len(s) > 1 else 0
               for s in simplices]

    memo = {}

    def r(i, j):
        if j < 0:
            return 0
        if (i, j) not in memo:
            memo[(i, j)] = rank([c >> i for c in columns[:j + 1]])
        return memo[(i, j)]

    pairs, used = {}, set()
    for j in range(n):
        if not columns[j]:
            continue
        for i in range(j - 1, -1, -1):
            if len(simplices[i]) + 1 == len(simplices[j]) and i not in used \
                    and r(i, j) - r(i + 1, j) + r(i + 1, j - 1) - r(i, j - 1) == 1:
                pairs[i] = j
                used.update((i, j))
                break
    return pairs, [i for i in range(n) if i not in used]


def diagrams(simplices, weights):
    """Points per dimension, as sorted lists."""
    pairs, unpaired = pairing(simplices)
    top = max(len(s) for s in simplices) - 1
    result = [[] for _ in range(top + 1)]
    for i, j in pairs.items():
        result[len(simplices[i]) - 1].append((weights[i], weights[j]))
    for i in unpaired:
        result[len(simplices[i]) - 1].append((weights[i], INF))
    return [sorted(p) for p in result]


def reported(simplices, weights):
    """Non-empty diagrams by dimension, the way the module reports them: without
    unpaired creators of the largest dimension."""
    ref = diagrams(simplices, weights) if simplices else []
    if ref:
        ref[-1] = [p for p in ref[-1] if p[1] != INF]
    return [(d, ps) for d, ps in enumerate(ref) if ps]


def components(vertices, edges):
    """Elder rule: vertices are (name, weight) and edges (u, v, weight), both in
    filtration order. Yields (vertex position, edge position or None)."""
    position = {v: i for i, (v, _) in enumerate(vertices)}
    label = dict(position)
    result = []
    for k, (u, v, _) in enumerate(edges):
        a, b = label[u], label[v]
        if a == b:
            continue
        old, young = min(a, b), max(a, b)
        for x in label:
            if label[x] == young:
                label[x] = old
        result.append((young, k))
    for root in sorted(set(label.values())):
        result.append((root, None))
    return result


def points(diagram):
    return sorted((p.x, p.y) for p in diagram)
