"""Command-line tools that read graphs: all small weighted graphs against the
definitions."""
import itertools
import json
import math
import os

import pyref
from vf import H, main
from vf_tools import run, good, put, get, wipe, scratch, away, number, near, expect

INF = float("inf")


def graphs(n, weights):
    """All weighted graphs as maps from edges to weights."""
    pairs = list(itertools.combinations(range(n), 2))
    for ws in itertools.product((None,) + tuple(weights), repeat=len(pairs)):
        yield {e: w for e, w in zip(pairs, ws) if w is not None}


def show(g):
    return " ".join("%d%d:%g" % (u, v, w) for (u, v), w in g.items())


def edge_list(g, name=lambda v: v, order=1):
    return "# graph\n" + "".join("%s %s %g\n" % (name(u), name(v), w) for (u, v), w in list(g.items())[::order])


def gml(n, g, name=lambda v: v, labels=None):
    nodes = "".join("  node [\n    id %s\n%s  ]\n" % (name(v), "    label \"%s\"\n" % labels[v] if labels else "") for v in range(n))
    edges = "".join("  edge [\n    source %s\n    target %s\n    weight %g\n  ]\n" % (name(u), name(v), w)
                    for (u, v), w in g.items())
    return "graph [\n  directed 0\n" + nodes + edges + "]\n"


def components(vertices, edges):
    label = {v: v for v in vertices}
    for u, v in edges:
        a, b = label[u], label[v]
        for x in label:
            if label[x] == b:
                label[x] = a
    return label


def flag(vertices, g, dimension):
    """Cliques with up to dimension+1 vertices."""
    vertices = sorted(vertices)
    return [frozenset(c) for k in range(1, dimension + 2) for c in itertools.combinations(vertices, k)
            if all(e in g for e in itertools.combinations(c, 2))]


def homology(weights, sign=1):
    """Diagrams of a complex given as a map from simplices to weights; sign -1
    orders by descending weights."""
    order = sorted(weights, key=lambda s: (sign * weights[s], len(s), sorted(s)))
    return pyref.diagrams(order, [weights[s] for s in order])


def rows(content):
    return [tuple(map(number, line.split())) for line in content.splitlines() if line.strip() and not line.startswith("#")]


# Betti numbers --------------------------------------------------------

def explore_betti():
    all_graphs = [(n, g) for n in range(1, 5) for g in graphs(n, (1,))]

    def betti(n, g):
        return len(g) - n + len(set(components(range(n), g).values()))

    for k in range(0, len(all_graphs), 5):
        chosen = all_graphs[k:k + 5]
        if H.mine() and H.case("betti numbers of graphs %d-%d" % (k, k + 4)):
            for names in ("g%d.gml", "x00%d_a1.gml", "%d.gml"):
                order = [3, 0, 4, 1, 2][:len(chosen)] if len(chosen) == 5 else range(len(chosen))
                files = [put(names % (i + 7), gml(chosen[i][0], {e: 1 + j % 3 for j, e in enumerate(chosen[i][1])}))
                         for i in order]
                r = good("betti_numbers", "betti", *files)
                if r:
                    H.equal(r.rows(), [[str(i + 7), str(betti(*chosen[i]))] for i in sorted(order)], "betti", "numbers of %r" % chosen)


# Degrees --------------------------------------------------------------

def degree_weights(g, dimension, zero=False, f=max):
    vertices = sorted(set(v for e in g for v in e))
    degree = {v: sum(v in e for e in g) for v in vertices}
    w = {s: f(degree[v] for v in s) for s in flag(vertices, g, dimension)}
    if zero:
        w.update({s: 0 for s in w if len(s) == 1})
    return degree, w


def explore_degrees():
    for n in (2, 3, 4):
        for g in graphs(n, (1,)):
            if not g:
                continue
            for dimension, loops, zero, factor in itertools.product((None, 1, 2, 3), (False, True), (False, True), (2, 5, 1)):
                if factor != 2 and (zero or dimension == 1):
                    continue
                if not (H.mine() and H.case("degrees d=%s l=%d z=%d f=%d %s" % (dimension, loops, zero, factor, show(g)))):
                    continue
                out = wipe(scratch("degrees"))
                name = (lambda v: v) if not loops else (lambda v: 3 + 2 * v)
                options = (["--loops"] if loops else []) + (["-z"] if zero else []) + \
                    (["--infinity=%d" % factor] if factor != 2 else []) + ["-o", out]
                if good("graph_analysis", "degrees", *options, put("net.txt", edge_list(g, name)),
                        *([dimension] if dimension else [])) is None:
                    continue
                degree, w = degree_weights(g, dimension or 1, zero)
                ds = homology(w)
                if not loops:
                    ds[-1] = [p for p in ds[-1] if p[1] != INF]
                ds[0] = [p for p in ds[0] if p[0] != p[1]]
                top = max(degree.values())
                for k, d in enumerate(ds):
                    content = get(os.path.join(out, "net_d%d.txt" % k))
                    H.check(content is not None or not d, "degrees-file", "no diagram of dimension %d" % k)
                    expect(rows(content or ""), [(x, factor * top if y == INF else y) for x, y in d], "degrees-diagram",
                           "diagram of dimension %d" % k)
                H.check(len(os.listdir(out)) <= len(ds), "degrees-file", "files %r" % os.listdir(out))


# Zero-dimensional persistence -----------------------------------------

def kruskal(n, g):
    """Merging edges with the sizes of both components."""
    label = {v: v for v in range(n)}
    for (u, v), w in sorted(g.items(), key=lambda e: e[1]):
        a, b = label[u], label[v]
        if a != b:
            x, y = sum(label[z] == a for z in label), sum(label[z] == b for z in label)
            for z in label:
                if label[z] == b:
                    label[z] = a
            yield (u, v), w, x, y


def explore_relevant():
    for n, weights in ((2, (1, 2)), (3, (1, 2, 3)), (4, (1, 2))):
        for g in graphs(n, weights):
            for kind in ("edges", "gml", "labels", "offset"):
                present = sorted(set(v for e in g for v in e)) if kind == "edges" else list(range(n))
                if not g or not (H.mine() and H.case("relevant edges %s %s" % (kind, show(g)))):
                    continue
                labels = ["v%d" % (7 * v) for v in range(n)]
                name = (lambda v: 10 + 3 * v) if kind == "offset" else (lambda v: v)
                if kind == "edges":
                    path = put("graph.txt", edge_list(g))
                else:
                    path = put("graph.gml", gml(n, g, name, labels if kind in ("labels", "offset") else None))
                r = good("relevant_edges", "relevant", path)
                if r is None:
                    continue
                merges = list(kruskal(n, g))
                want = [(0, w) for _, w, _, _ in merges] + [(0, INF)] * (len(present) - len(merges))
                expect(rows(r.out), want, "relevant-diagram", "diagram")
                if len(set(g.values())) == len(g):
                    lines = [line for line in r.err.splitlines() if line.startswith("* Edge")]
                    expected = []
                    for (u, v), w, x, y in merges:
                        u, v = (labels[u], labels[v]) if kind in ("labels", "offset") else (u, v)
                        expected.append("* Edge (%s,%s): %g [0,%g]" % (u, v, min(x, y) / max(x, y), w))
                    H.equal(lines, expected, "relevant-edges", "edges")


# Clique communities ---------------------------------------------------

def adjacency(cliques):
    return [(a, b) for a, b in itertools.combinations(cliques, 2) if len(a & b) == len(a) - 1]


def explore_communities():
    for n, weights in ((2, (1, 2)), (3, (1, 2, 4)), (4, (1, 2)), (2, (-2, 1)), (3, (-2, -1, 2))):
        for g in graphs(n, weights):
            if not g:
                continue
            if max(g.values()) < 0:
                continue
            lo, hi = min(0, min(g.values())), max(g.values())
            for mode in ("", "-n", "-i", "-n -i", "-l"):
                for threshold, order in ((1, 3), (2, 2), (0.5, 1)):
                    if n == 4 and mode in ("-n", "-i") and threshold == 2:
                        continue
                    if not (H.mine() and H.case("communities %s t=%g k=%d %s" % (mode, threshold, order, show(g)))):
                        continue
                    labels = ["n%d" % (3 * v) for v in range(n)]
                    path = put("c.gml", gml(n, g, labels=labels)) if mode == "-l" else put("c.txt", edge_list(g, order=-1))
                    r = good("clique_communities_to_json", "communities", *mode.split(), path, threshold, order)
                    if r is None:
                        continue
                    w = dict(g)
                    if "-n" in mode:
                        w = {e: (x - lo) / (hi - lo) for e, x in w.items()}
                    if "-i" in mode:
                        w = {e: (1 if "-n" in mode else hi) - x for e, x in w.items()}
                    w = {e: x for e, x in w.items() if x <= threshold}
                    try:
                        document = json.loads(r.out)
                    except ValueError as e:
                        H.fail("communities-json", "%s in %r" % (e, r.out))
                        continue
                    H.check(len(document) == 1 and float(list(document)[0]) == threshold, "communities-threshold", r.out)
                    levels = list(document.values())[0]
                    H.equal(sorted(levels), [str(k + 1) for k in range(1, order + 1)], "communities-levels", "levels")
                    for k in range(1, order + 1):
                        cliques = [s for s in flag(range(n), w, k) if len(s) == k + 1]
                        label = components(cliques, adjacency(cliques))
                        want = sorted(sorted(sorted(labels[v] if mode == "-l" else v for v in c) for c in cliques if label[c] == x)
                                      for x in set(label.values()))
                        got = sorted(sorted(sorted(c) for c in community) for community in levels.get(str(k + 1), []))
                        H.equal(got, want, "communities", "communities of level %d" % (k + 1))


def clique_diagram(n, g, k):
    """Diagram of the filtration of the k-simplices and their adjacency, with the
    essential communities."""
    cliques = [s for s in flag(range(n), g, k) if len(s) == k + 1]
    weight = {c: max(g[e] for e in itertools.combinations(sorted(c), 2)) for c in cliques}
    order = sorted(cliques, key=lambda c: weight[c])
    edges = sorted(((a, b, max(weight[a], weight[b])) for a, b in adjacency(cliques)), key=lambda e: e[2])
    points, essential = [], []
    label = components(cliques, adjacency(cliques))
    for i, j in pyref.components([(c, weight[c]) for c in order], edges):
        if j is None:
            members = [c for c in cliques if label[c] == label[order[i]]]
            essential.append((weight[order[i]], members))
        elif weight[order[i]] != edges[j][2]:
            points.append((weight[order[i]], edges[j][2]))
    return points, essential


def explore_clique_persistence():
    for n, weights in ((2, (1, 2)), (3, (1, 2, 4)), (4, (1, 2)), (4, (3, 4, 7, 9, 12, 20))):
        for g in (graphs(n, weights) if len(weights) < 6 else
                  ({e: w for e, w in zip(itertools.combinations(range(4), 2), p) if w is not None}
                   for p in itertools.permutations(weights) if H.thorough or p[0] == 3 or p[5] == 3)):
            if not g:
                continue
            for mode in ("", "--normalize", "--invert-weights", "--reverse", "--ignore-empty", "-n -i"):
                if mode not in ("", "--ignore-empty") and n == 4 and len(weights) < 6 and len(g) != 5:
                    continue
                for top in (1, 3):
                    if not (H.mine() and H.case("clique persistence %s k=%d %s" % (mode, top, show(g)))):
                        continue
                    wipe(scratch("away"))
                    r = good("clique_persistence_diagram", "clique-persistence", *mode.split(),
                             put("net.txt", edge_list(g)), top)
                    if r is None:
                        continue
                    w, maximum = dict(g), max(g.values())
                    if "-n" in mode:
                        w, maximum = {e: x / maximum for e, x in g.items()}, 1
                    if "-i" in mode and mode != "--ignore-empty":
                        w = {e: maximum - x for e, x in w.items()}
                    accumulated = {v: 0.0 for e in g for v in e}
                    number_of = {v: 0 for v in accumulated}
                    exact = True
                    expected_files = {"net.txt"}
                    for k in range(top, 0, -1):
                        points, essential = clique_diagram(n, w, k)
                        if not essential and mode != "--ignore-empty":
                            break
                        exact = exact and not points
                        for creation, members in essential:
                            for v in set(v for c in members for v in c):
                                accumulated[v] += (2 * maximum - creation) ** 2
                                number_of[v] += 1
                        if not essential:
                            continue
                        expected_files.add("net_k%d.txt" % k)
                        content = get(away("net_k%d.txt" % k))
                        H.check(content is not None, "clique-persistence-file", "no file for k=%d" % k)
                        got = rows(content or "")
                        want = points + [(c, 2 * maximum) for c, _ in essential]
                        expect([p[:2] for p in got], want, "clique-persistence-diagram", "diagram for k=%d" % k)
                        sizes = sorted(len(m) for _, m in essential)
                        H.equal(sorted(p[2] for p in got if len(p) == 3 and near(p[1], 2 * maximum)),
                                sizes, "clique-persistence-sizes", "sizes of communities for k=%d" % k)
                    H.equal(set(os.listdir(scratch("away"))), expected_files, "clique-persistence-file", "files")
                    got = rows(get(away("net.txt")) or "")
                    if exact:
                        expect(got, [(v, accumulated[v], number_of[v]) for v in accumulated], "clique-persistence-centrality",
                               "accumulated persistence")
                    else:
                        H.equal(sorted(p[0] for p in got), sorted(accumulated), "clique-persistence-centrality", "vertices")
                        for v, a, c in got:
                            H.check(a >= accumulated.get(v, 0) - 1e-3 and c >= number_of.get(v, 0), "clique-persistence-centrality",
                                    lambda: "vertex %d: %g, %d" % (v, a, c))


# Connectivity matrices ------------------------------------------------

def explore_connectivity():
    for n, values in ((1, ()), (2, (0, 1, 2, "nan")), (3, (0, 1, 2, "nan")), (4, (0, 1, 3))):
        pairs = list(itertools.combinations(range(n), 2))
        for ws in itertools.product(values, repeat=len(pairs)):
            for mode in ("", "-k", "-k -i 9"):
                if n == 4 and mode == "-k" and 0 in ws:
                    continue
                if not (H.mine() and H.case("connectivity %s %d %r" % (mode, n, ws))):
                    continue
                m = dict(zip(pairs, ws))
                text = "".join(" ".join(str(m.get((min(i, j), max(i, j)), 0)) for j in range(n)) + "\n" for i in range(n))
                path = put("first.txt", text)
                second = put("second.txt", "0 1\n1 0\n")
                r = good("connectivity_matrix_analysis", "connectivity", *mode.split(), path, second)
                if r is None:
                    continue
                try:
                    document = json.loads(r.out)
                except ValueError as e:
                    H.fail("connectivity-json", "%s in %r" % (e, r.out))
                    continue

                def reference(n, m):
                    top = max([0] + [w for w in m.values() if w != "nan"])
                    weights = {frozenset([v]): 0 for v in range(n)}
                    weights.update({frozenset(e): top - w for e, w in m.items() if w not in (0, "nan")})
                    ds = homology(weights)
                    if "-k" not in mode and ds:
                        ds = [ds[0]] if len(ds) > 1 else [[]]
                        if len(weights) == n:
                            ds = []
                    return [(k, d) for k, d in enumerate(ds) if d]

                want = [(name, k, d) for name, ref in (("first.txt", reference(n, m)), ("second.txt", reference(2, {(0, 1): 1})))
                        for k, d in ref]
                got = document["diagrams"]
                got = [d for d in got if d["size"]]
                H.equal([(d["name"], d["dimension"]) for d in got], [w[:2] for w in want], "connectivity-diagrams", "diagrams")
                if len(got) != len(want):
                    continue
                for d, (_, k, ref) in zip(got, want):
                    if "-i" in mode:
                        ref = [(x, 9 if y == INF else y) for x, y in ref]
                    expect([(number(x), number(y)) for x, y in d["diagram"]], ref, "connectivity-points", "dimension %d" % k)
                    H.equal(d["size"], len(ref), "connectivity-size", "size")
                    H.equal(d["betti"], sum(y == INF for _, y in ref), "connectivity-betti", "Betti number")
                    if all(y != INF for _, y in ref):
                        ps = [y - x for x, y in ref]
                        total = sum(ps)
                        for key, value in (("total_persistence_1", total), ("total_persistence_2", sum(p * p for p in ps)),
                                           ("persistent_entropy", -sum(p / total * math.log2(p / total) for p in ps if p) if total else 0)):
                            H.check(near(number(d[key]), value), "connectivity-statistics", lambda: "%s: expected %g, got %s" % (key, value, d[key]))


# Sets of graphs -------------------------------------------------------

def explore_sparse():
    shapes = [(n, g) for n in (1, 2, 3) for g in graphs(n, (1,))] + \
        [(4, g) for g in graphs(4, (1,)) if len(g) in (3, 5, 6)][:: 1 if H.thorough else 4]
    modes = [[], ["--sum"], ["-S"], ["--normalise"], ["--dimension=2"], ["-d", "3", "-f", "3"], ["-c"], ["-g"], ["-g", "-n"], ["-g", "-a"]]
    for first, second in itertools.product(range(len(shapes)), repeat=2):
        if not H.thorough and second not in (first, (first + 5) % len(shapes), 0, 3):
            continue
        for mode in modes:
            if not (H.mine() and H.case("graphs %d and %d %s" % (first, second, " ".join(mode)))):
                continue
            chosen = [shapes[first], shapes[second]]
            edges, indicator, offsets = [], [], []
            for k, (n, g) in enumerate(chosen):
                offsets.append(len(indicator) + 1)
                edges += [(u + offsets[k], v + offsets[k]) for u, v in g]
                indicator += [k + 1] * n
            put("S_A.txt", "".join("%d, %d\n%d, %d\n" % (u, v, v, u) for u, v in edges))
            put("S_graph_indicator.txt", "".join("%d\n" % i for i in indicator))
            put("S_graph_labels.txt", "7\n-1\n")
            put("S_node_labels.txt", "".join("L%d\n" % (3 * i) for i in range(len(indicator))))
            put("S_node_attributes.txt", "".join("%d, 1\n" % (10 + i) for i in range(len(indicator))))
            out = wipe(scratch("sparse"))
            r = good("sparse_adjacency_matrices", "graphs", *mode, "-o", out, scratch("S_A.txt"))
            if r is None:
                continue
            H.equal(get(os.path.join(out, "Labels.txt")), "7\n-1\n", "graphs-labels", "labels")
            dimension = 2 if "--dimension=2" in mode else 3 if "-d" in mode else 1
            factor = 3 if "-f" in mode else 2
            # Degrees count all co-faces of a vertex in the expanded complex
            degrees = [{v: sum(v in s and len(s) > 1 for s in flag(range(n), g, dimension)) for v in range(n)} for n, g in chosen]
            largest = max(max(d.values()) for d in degrees)
            top = max(len(s) for n, g in chosen for s in flag(range(n), g, dimension)) - 1
            for k, (n, g) in enumerate(chosen):
                degree = dict(degrees[k])
                if "--normalise" in mode:
                    m = max(degree.values())
                    degree = {v: d / max(m, 1) for v, d in degree.items()}
                    largest = 1
                f = sum if "--sum" in mode else min if "-S" in mode else max
                w = {s: f(degree[v] for v in s) for s in flag(range(n), g, dimension)}
                ds = homology(w, -1 if "-S" in mode else 1)
                for d in range(top + 1):
                    content = get(os.path.join(out, "%d_d%d.txt" % (k, d)))
                    H.check(content is not None, "graphs-file", "no diagram of dimension %d of graph %d" % (d, k))
                    want = [(x, factor * largest if y == INF else y) for x, y in (ds[d] if d < len(ds) else []) if x != y]
                    expect(rows(content or ""), want, "graphs-diagram", "diagram %d of graph %d" % (d, k))
                if "-c" in mode:
                    dist = {(u, v): 0 if u == v else 1 if (min(u, v), max(u, v)) in g else INF for u in range(n) for v in range(n)}
                    for z, u, v in itertools.product(range(n), repeat=3):
                        dist[u, v] = min(dist[u, v], dist[u, z] + dist[z, v])
                    sums = [sum(dist[u, v] for v in range(n) if dist[u, v] != INF) for u in range(n)]
                    got = rows(get(os.path.join(out, "%d_closeness_centrality.txt" % k)) or "")
                    H.check(len(got) == n and all(near(a[0], n / s if s else INF) for a, s in zip(got, sums)), "graphs-closeness",
                            lambda: "closeness of %r: got %r" % (sums, got))
                if "-g" in mode:
                    tokens = (get(os.path.join(out, "%d.gml" % k)) or "").split()
                    ids = [int(tokens[i + 1]) for i, t in enumerate(tokens) if t == "id"]
                    H.equal(sorted(ids), [v + offsets[k] for v in range(n)], "graphs-gml", "nodes")
                    got = sorted(tuple(sorted((int(tokens[i + 1]), int(tokens[i + 3])))) for i, t in enumerate(tokens) if t == "source")
                    H.equal(got, sorted((u + offsets[k], v + offsets[k]) for u, v in g), "graphs-gml", "edges")
                    if "-n" in mode:
                        labels = [tokens[i + 1] for i, t in enumerate(tokens) if t == "label"]
                        H.equal(labels, ["\"L%d\"" % (3 * (i - 1)) for i in ids], "graphs-gml", "labels")


def explore():
    explore_betti()
    explore_degrees()
    explore_relevant()
    explore_communities()
    explore_clique_persistence()
    explore_connectivity()
    explore_sparse()
    for tool in ("betti_numbers", "graph_analysis", "relevant_edges", "clique_communities_to_json", "clique_persistence_diagram",
                 "connectivity_matrix_analysis", "sparse_adjacency_matrices"):
        if H.mine() and H.case("%s without files" % tool):
            r = run(tool)
            H.check(r.status not in (0, 88) and r.status < 1000, "usage", "status %d" % r.status)
            H.equal(r.out, "", "usage", "output")


main(explore)
