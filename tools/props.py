# The source from which properties.jsonl is generated (tools/gen.py).
PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe=()):
    PROPS.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(
            files=["include/aleph/" + f if not f.startswith(("src", "bindings")) else f for f in files],
            mechanism=[dict(name=n, where=("include/aleph/" + w) if not w.startswith(("src", "bindings")) else w) for n, w in mech],
            **(dict(observe_at=list(observe)) if observe else {}),
            hook_needed=None)))


I, H, C = "inputs", "histories", "configurations"

P("P01", "Persistence pairing is the mathematically defined one",
  """For every simplicial complex in filtration order, the computed persistence pairing is exactly the one defined by the filtration over the two-element field: every simplex is a creator or a destroyer, each destroyer is paired with the creator the definition assigns to it, and nothing else is paired. The result does not depend on the reduction algorithm, on the matrix representation, on whether the matrix was dualized, or on the history of reductions performed before; and if a limit is requested, exactly the pairs and unpaired simplices whose creator has an index below the limit are reported.""",
  [I, C], "All complexes and all filtration orders (linear extensions of the face order), all reduction algorithms, all column representations, primal and dual, with and without unpaired simplices, all limits.",
  """Tests reduce a triangle, a quadrilateral and a handful of fixed data sets; agreement over all filtration
  orders and all algorithm/representation combinations is a universal statement.""",
  ["persistentHomology/Calculation.hh", "persistentHomology/PersistencePairing.hh",
   "persistentHomology/algorithms/Standard.hh", "persistentHomology/algorithms/Twist.hh",
   "topology/BoundaryMatrix.hh", "topology/Conversions.hh",
   "topology/representations/Vector.hh", "topology/representations/List.hh", "topology/representations/Set.hh"],
  [("calculatePersistencePairing", "persistentHomology/Calculation.hh"), ("left-to-right column reduction", "persistentHomology/algorithms/Standard.hh"),
   ("clearing optimisation", "persistentHomology/algorithms/Twist.hh"), ("anti-transposition", "topology/BoundaryMatrix.hh: dualize")])

P("P02", "Persistence diagrams, Betti numbers and Euler characteristic are right",
  """For every filtered complex with weights, the persistence diagram of each dimension contains exactly the
  (birth weight, death weight) points of the persistence pairs created in that dimension plus one point with
  infinite destruction for every class that never dies, so the Betti number of each diagram is the Betti number
  of the complex. The Euler characteristic obtained from the complex and the one obtained from its diagrams are both the
  alternating sum of simplex counts, and the persistent characteristic is the alternating sum of persistences.""",
  [I, C], "All complexes up to the bound, all monotone weight assignments, all ways of building the matrix (dual or not, with or without unpaired top-dimensional simplices), and all 1D functions with their boundary matrix.",
  "Tests compare a few hand-made diagrams; birth/death lookup, dimension assignment and the treatment of essential classes must hold for every weighted complex.",
  ["persistentHomology/Calculation.hh", "persistenceDiagrams/Calculation.hh", "persistentHomology/EulerCharacteristic.hh", "persistenceDiagrams/PersistenceDiagram.hh"],
  [("calculatePersistenceDiagrams / calculatePersistenceDiagram", "persistentHomology/Calculation.hh"), ("makePersistenceDiagrams", "persistenceDiagrams/Calculation.hh"),
   ("eulerCharacteristic", "persistentHomology/EulerCharacteristic.hh"), ("betti", "persistenceDiagrams/PersistenceDiagram.hh")])

P("P03", "Connected-component persistence equals zero-dimensional persistence",
  """For every weighted complex in filtration order, tracking connected components yields exactly the
  zero-dimensional persistence pairing and diagram of the general algorithm (with zero-persistence pairs kept or dropped as requested), with one
  unpaired creator per connected component, and the merge callbacks report the younger component, the older component and the merge weights in order.
  Ordinary connected components and the extended persistence hierarchy describe the same merges and the same partition of the vertices; for functions on a
  path with different values, the hierarchy has exactly the parents its definition yields.""",
  [I, C], "All graphs and complexes up to the bound with all weight assignments and tie patterns, all trait configurations.",
  "Tests use single fixed graphs; ties, isolated vertices and arbitrary merge orders are not covered.",
  ["persistentHomology/ConnectedComponents.hh", "topology/ConnectedComponents.hh", "persistentHomology/ExtendedPersistenceHierarchy.hh", "topology/UnionFind.hh"],
  [("calculateZeroDimensionalPersistenceDiagram", "persistentHomology/ConnectedComponents.hh"), ("calculateConnectedComponents", "topology/ConnectedComponents.hh"),
   ("ExtendedPersistenceHierarchy", "persistentHomology/ExtendedPersistenceHierarchy.hh")])

P("P04", "A simplex behaves as the set of its vertices",
  """Constructing a simplex from any sequence of vertices yields the same simplex as any reordering or repetition of that sequence;
  equality, hashing and the strict total order depend only on the vertex set and never on the weight, and the order places every face before its cofaces.
  Its dimension, membership tests, vertex access and boundary enumeration (each codimension-one face exactly once, none for a vertex) agree with the vertex set.""",
  [I], "All vertex sequences up to a length over a small alphabet, all pairs and triples of simplices for the order axioms.",
  "Tests construct a few simplices; order axioms and construction invariance quantify over all pairs/triples.",
  ["topology/Simplex.hh"], [("Simplex constructors (sort/unique)", "topology/Simplex.hh"), ("boundary_iterator", "topology/Simplex.hh"), ("hash specialisation", "topology/Simplex.hh")])

P("P05", "Simplicial complex container stays consistent under every operation history",
  """After every sequence of insertions, replacements, removals, sorts and weight updates, all views of the complex (sequence order, lookup, index,
  lexicographic and per-dimension iteration, dimension, size, equality) describe one duplicate-free set of simplices.
  A newly added simplex goes to the end, a replaced simplex keeps its position, removing a simplex removes all its cofaces and nothing else, and creating missing faces adds exactly the faces that are absent.""",
  [H, I], "All operation sequences up to the bound over all simplices on a few vertices.",
  "Tests exercise isolated calls; the multi-index container invariants must hold for every history.",
  ["topology/SimplicialComplex.hh"], [("multi-index container", "topology/SimplicialComplex.hh"), ("push_back/insert/replace/remove/createMissingFaces", "topology/SimplicialComplex.hh")])

P("P06", "Filtration orders and weight recalculation give valid filtrations",
  """Sorting a complex by weight (ascending, or descending for weights that decrease on cofaces), by lower-star or by upper-star function values yields a total order in which every face precedes its cofaces
  and values are monotone, regardless of the initial order. Recalculating weights assigns every simplex of positive dimension the maximum (or minimum) of the weights of its faces,
  with the documented option of keeping edge weights and the documented assignment from vertex values, and leaves the set of simplices and the vertex weights unchanged. Vertex degrees are reported for every vertex in vertex order as the number of its proper cofaces.""",
  [I, C], "All complexes up to the bound with all small weight assignments and all initial orders.",
  "Tests check single fixed filtrations; ties and arbitrary initial orders matter.",
  ["topology/filtrations/Data.hh", "topology/filtrations/LowerStar.hh", "topology/filtrations/UpperStar.hh", "topology/filtrations/Degree.hh", "topology/SimplicialComplex.hh"],
  [("Data", "topology/filtrations/Data.hh"), ("LowerStar", "topology/filtrations/LowerStar.hh"), ("UpperStar", "topology/filtrations/UpperStar.hh"), ("recalculateWeights", "topology/SimplicialComplex.hh")])

P("P07", "All boundary-matrix representations implement the same column algebra",
  """For every history of column assignments, clearings, dimension updates and column additions, each matrix representation reports the same columns, maximum indices and dimensions as
  a matrix over the two-element field. Building the matrix of a complex encodes exactly its face relation, dualizing twice gives the original matrix back, and
  matrices read from text equal the matrix described by the text, independently of comments and blank lines.""",
  [H, I, C], "All operation sequences up to a depth on small matrices for every representation; all small matrices; all small texts.",
  "Tests check a few fixed matrices; column addition histories are only covered along one reduction.",
  ["topology/BoundaryMatrix.hh", "topology/Conversions.hh", "topology/representations/Vector.hh", "topology/representations/List.hh", "topology/representations/Set.hh", "topology/representations/Heap.hh"],
  [("addColumns/getMaximumIndex/setColumn", "topology/representations/Vector.hh"), ("dualize/load", "topology/BoundaryMatrix.hh"), ("makeBoundaryMatrix", "topology/Conversions.hh")])

P("P08", "Disjoint-set forest maintains the partition generated by its merges",
  """After any sequence of merges and queries the disjoint-set structure represents exactly the partition generated by the merges: two elements have the same representative
  iff they are connected by merges, each set has one representative, listing a set returns all its members, and unknown elements are reported as absent.
  Merges are directional: the representative of the set merged into survives.""",
  [H], "All sequences of merges (and interleaved queries) up to a depth on small ground sets.",
  "Tests run one fixed merge sequence; path compression makes results history dependent.",
  ["topology/UnionFind.hh"], [("merge/find/roots/get", "topology/UnionFind.hh")])

P("P09", "Skeletons, filters and intersections are exact set operations in order",
  """The k-skeleton and any predicate filter of a complex contain exactly the qualifying simplices, with their weights, in the original order.
  The intersection of two simplices, its size, and the intersections between a simplex and a collection of simplices are those of the vertex sets.""",
  [I], "All complexes and simplex pairs up to the bound, all k, all predicates given as subsets.",
  "Tests check one example each.",
  ["topology/Skeleton.hh", "topology/Filter.hh", "topology/Intersections.hh"],
  [("Skeleton", "topology/Skeleton.hh"), ("Filter", "topology/Filter.hh"), ("intersect/sizeOfIntersection/lastIntersection", "topology/Intersections.hh")])

P("P10", "Rips expansion produces exactly the clique complex",
  """Expanding a graph up to dimension k yields exactly the cliques with at most k+1 vertices of that graph, with the vertices and edges and their weights preserved, and the bottom-up and top-down expansions agree.
  Assigning weights gives every higher simplex the maximum of the weights of its faces (or of the supplied vertex data), so that the result is a valid filtration.""",
  [I, C], "All graphs up to the bound, all target dimensions, all small weight assignments including negative and tied ones.",
  "Tests expand a triangle and a few fixed graphs.",
  ["geometry/RipsExpander.hh", "geometry/RipsExpanderTopDown.hh"],
  [("RipsExpander", "geometry/RipsExpander.hh"), ("RipsExpanderTopDown", "geometry/RipsExpanderTopDown.hh")])

P("P11", "Vietoris-Rips complexes match their definition for every point cloud",
  """For every point cloud, scale and dimension the Vietoris-Rips complex contains every point as a vertex and exactly those simplices up to the requested dimension whose points are pairwise closer than the scale,
  every simplex weighted by its diameter (or by the supplied vertex values), in a valid filtration order. The result does not depend on the nearest-neighbour backend.""",
  [I, C], "All small point multisets on a grid, all scales at and between distance values, all dimensions, all backends, with duplicates and empty clouds.",
  "Tests use random/fixed clouds without exact comparison against the definition.",
  ["geometry/VietorisRipsComplex.hh", "geometry/RipsSkeleton.hh", "geometry/RipsExpander.hh"],
  [("buildVietorisRipsComplex", "geometry/VietorisRipsComplex.hh"), ("RipsSkeleton", "geometry/RipsSkeleton.hh")])

P("P12", "Nearest-neighbour search and distance functors are exact",
  """For every point cloud, a radius query returns for each point exactly the points closer than the radius and a k-nearest-neighbour query returns k closest points in order of distance, each with its true distance, with
  the brute-force and the tree-based backend in agreement. The distance functors are the metrics they are named after.""",
  [I, C], "All small point sets on a grid including duplicates, all radii, all k, all backends and distances.",
  "Tests compare the two backends on one data set.",
  ["geometry/distances/Traits.hh", "geometry/BruteForce.hh", "geometry/FLANN.hh", "geometry/distances/Euclidean.hh", "geometry/distances/Manhattan.hh", "geometry/distances/Infinity.hh", "geometry/distances/Hamming.hh", "geometry/distances/Wrapper.hh"],
  [("radiusSearch/neighbourSearch", "geometry/BruteForce.hh"), ("radiusSearch/neighbourSearch", "geometry/FLANN.hh")])

P("P13", "Cech complexes match their definition",
  """For every point cloud and radius, the Cech complex contains a simplex exactly if the smallest ball enclosing its points has at most the given radius, weighted by the diameter of that ball, and is closed under taking faces.""",
  [I], "All small point sets on grids of dimension 1 to 4, a ladder of radii.",
  "Tests use one configuration.", ["geometry/CechComplex.hh"], [("buildCechComplex2D", "geometry/CechComplex.hh")])

P("P14", "Witness complexes and landmark selection match their definitions",
  """For every point cloud, landmark set and parameters (nu at most the number of landmarks), two landmarks are connected exactly if some point witnesses them, with the smallest witnessing value as weight, and higher simplices are the cliques of that graph.
  Landmark selection returns the requested number of distinct valid indices, and max-min selection always takes a point farthest from those chosen before.""",
  [I, C], "All small point sets on a grid, all landmark subsets, the parameter grid of the construction.",
  "Tests check one square and one random cloud.", ["geometry/WitnessComplex.hh"],
  [("buildWitnessComplex", "geometry/WitnessComplex.hh"), ("generateMaxMinLandmarks/generateRandomLandmarks", "geometry/WitnessComplex.hh")])

P("P15", "Dowker complexes match the relation they are built from",
  """For every weighted relation (square matrix) and threshold, the admissible pairs are exactly the ordered pairs whose shortest-path distance along positive entries is at most the threshold (every point reaches itself at distance zero), and the sink and source complexes contain exactly those vertex sets (up to the requested dimension) that share a common sink, respectively source, weighted by
  the smallest value at which that happens. Both complexes have the same homology at every threshold.""",
  [I], "All small matrices over a small alphabet, all thresholds and dimensions.",
  "Tests check one fixed matrix.", ["geometry/DowkerComplex.hh"], [("admissiblePairs", "geometry/DowkerComplex.hh"), ("buildDowkerSinkSourceComplexes", "geometry/DowkerComplex.hh")])

P("P16", "Beta-skeletons contain exactly the edges with empty regions",
  """For every planar point cloud and beta of at least one, the skeleton has every point as a vertex and an edge between two points exactly if no other point lies in their closed beta-dependent (lune-shaped) forbidden region, weighted by their distance.
  For growing beta the edge sets shrink, from the Gabriel graph at one to the relative neighbourhood graph at two.""",
  [I, C], "All small planar point sets on a grid, a ladder of beta values.", "Tests check one configuration.",
  ["geometry/BetaSkeleton.hh"], [("buildBetaSkeletonNaive", "geometry/BetaSkeleton.hh")])

P("P17", "Cover trees keep their invariants under every insertion history",
  """After every sequence of insertions a cover tree stores every inserted point exactly once and satisfies nesting, covering and separation at all levels, and its own validity check says so.
  The points and the level-wise listings it reports are those inserted.""",
  [H, I], "All insertion sequences of distinct small points up to a length.", "Tests insert fixed sequences.",
  ["geometry/CoverTree.hh"], [("insert", "geometry/CoverTree.hh"), ("isValid/points/nodesToLevel", "geometry/CoverTree.hh")])

P("P18", "Maximal cliques and clique communities are exact",
  """For every graph both enumeration algorithms report each maximal clique exactly once and nothing else. The clique graph for dimension k has one vertex per k-simplex of a complex, with that simplex' weight, and connects two exactly if they share a (k-1)-dimensional face,
  weighted by the larger of the two weights (or by a user-supplied function of both).""",
  [I, C], "All graphs up to the bound, all k, all small weight assignments.", "Tests check three graphs.",
  ["topology/MaximalCliques.hh", "topology/CliqueGraph.hh"], [("maximalCliquesKoch / maximalCliquesBronKerbosch", "topology/MaximalCliques.hh"), ("getCliqueGraph", "topology/CliqueGraph.hh")])

P("P19", "Barycentric subdivision is the order complex of the face poset",
  """For every complex the barycentric subdivision is a valid complex isomorphic to the complex of flags of its simplices, keeping original vertices, so all simplex counts, the Euler characteristic and the homology match.
  Weights are inherited from the carrier simplex, scaled by the supplied functor of the dimension of the new simplex.""",
  [I], "All complexes up to the bound, all small weight assignments, several scalings.", "Tests check counts for a few complexes.",
  ["topology/BarycentricSubdivision.hh"], [("BarycentricSubdivision", "topology/BarycentricSubdivision.hh")])

P("P20", "Cones are contractible and suspensions shift homology",
  """For every complex the cone consists of the complex, one new vertex and exactly the joins of that vertex with every simplex, and is acyclic; the suspension does the same with two new, unconnected vertices, and has the reduced homology of
  the complex shifted by one. Original simplices keep their weights and joined simplices get the weight the functor prescribes.""",
  [I], "All complexes up to the bound with small weights.", "Tests check one sphere.",
  ["topology/QuotientSpaces.hh"], [("cone/suspension", "topology/QuotientSpaces.hh")])

P("P21", "Spines are subcomplexes with the same homology and nothing left to collapse",
  """For every complex the spine is a valid subcomplex obtained by elementary collapses: it has the same homology and Euler characteristic and admits no further collapse; both implementations satisfy this.
  Principal simplices, free faces and admissibility are reported exactly as defined.""",
  [I, C], "All complexes up to the bound, all insertion orders for the small ones.", "Tests check a few complexes.",
  ["topology/Spine.hh"], [("spine / dumb::spine", "topology/Spine.hh"), ("isPrincipal/isAdmissible/getPrincipalFaces", "topology/Spine.hh")])

P("P22", "Half-edge meshes answer all neighbourhood queries consistently",
  """For every set of consistently oriented faces forming a surface, the half-edge mesh reports exactly the vertices, edges, faces, stars, links, lower and higher neighbours and connected components of the polygon complex it was built from, independently of the insertion order of faces.""",
  [I, H], "All small consistently oriented surfaces with and without boundary, all insertion orders.", "Tests check two meshes.",
  ["topology/Mesh.hh"], [("addVertex/addFace", "topology/Mesh.hh"), ("star/link/closedStar/faces", "topology/Mesh.hh")])

P("P23", "Persistent intersection homology follows the perversity definition",
  """For every filtered complex, stratification and perversity, the computed diagrams count exactly the classes of the chain complex of allowable chains whose boundaries are allowable, with right births and deaths; for a trivial stratification this is ordinary persistent homology.
  Partitioning a complex by a predicate keeps every simplex once, allowable ones first, preserving relative order.""",
  [I, C], "All small complexes, all chains of subcomplexes, all perversities.", "Tests use wedge-of-circles style examples only.",
  ["persistentHomology/PhiPersistence.hh"], [("calculateIntersectionHomology", "persistentHomology/PhiPersistence.hh"), ("partition", "persistentHomology/PhiPersistence.hh"), ("Perversity/PerversityGM", "persistentHomology/PhiPersistence.hh")])

P("P24", "Shortest-path distances of weighted graphs are exact",
  """For every weighted graph with non-negative weights the all-pairs distance matrix contains exactly the lengths of the shortest paths, zero on the diagonal, symmetric, and infinity (the largest value for integer types) for unreachable pairs; edges of weight zero count with the given default weight.""",
  [I], "All weighted graphs up to the bound.", "Tests check one graph.", ["topology/FloydWarshall.hh"], [("floydWarshall", "topology/FloydWarshall.hh")])

P("P25", "Graph Laplacian, heat kernel, curvature and bisection follow their definitions",
  """For every weighted graph the Laplacian is degree matrix minus adjacency matrix (and the pseudo-inverse of a connected graph's Laplacian is its pseudo-inverse), heat-kernel quantities equal the spectral formula for every time, combinatorial curvatures equal their counting formulas, and bisection yields two complexes induced on complementary vertex sets.""",
  [I], "All weighted graphs up to the bound, a grid of times.", "Tests check one graph without exact values.",
  ["geometry/HeatKernel.hh", "topology/Partitions.hh", "topology/CombinatorialCurvature.hh"],
  [("weightedLaplacianMatrix/HeatKernel", "geometry/HeatKernel.hh"), ("bisect", "topology/Partitions.hh"), ("curvature", "topology/CombinatorialCurvature.hh")])

P("P26", "Persistence diagrams are multisets under every edit history",
  """After every sequence of additions, removals of diagonal points, duplicates or unpaired points, merges, erasures and dimension changes, a persistence diagram reports exactly the resulting multiset of points, with size, Betti number, iteration and emptiness consistent with it; two diagrams compare equal exactly if they list the same points.
  Points compare and order by value and report persistence and unpairedness accordingly.""",
  [H], "All operation sequences up to a depth over a small alphabet of points including diagonal, infinite and duplicate ones.", "Tests run isolated operations.",
  ["persistenceDiagrams/PersistenceDiagram.hh"], [("add/removeDiagonal/removeDuplicates/removeUnpaired/merge", "persistenceDiagrams/PersistenceDiagram.hh")])

P("P27", "Bottleneck and Hausdorff distances between diagrams are exact",
  """For every pair of diagrams the bottleneck distance is the smallest possible maximum cost over all matchings that may match points to the diagonal, and for diagrams without unpaired points the Hausdorff distance is the largest distance of a point to the other diagram, and the nearest-neighbour distance and the sum of minimum distances are half the sum of all distances of points to the other diagram.
  All are symmetric, zero for equal diagrams, and independent of the order of points.""",
  [I], "All pairs of small diagrams over a small alphabet of points.", "Tests check one or two pairs.",
  ["persistenceDiagrams/distances/PointSet.hh", "persistenceDiagrams/distances/detail/Orthogonal.hh", "persistenceDiagrams/distances/Bottleneck.hh", "persistenceDiagrams/distances/Hausdorff.hh", "persistenceDiagrams/distances/NearestNeighbour.hh"],
  [("bottleneckDistance", "persistenceDiagrams/distances/Bottleneck.hh"), ("hausdorffDistance", "persistenceDiagrams/distances/Hausdorff.hh")])

P("P28", "Wasserstein distances between diagrams are exact",
  """For every pair of diagrams without unpaired points and every power p the Wasserstein distance is the p-th root of the minimum total p-th-power cost over all matchings in which points may also be matched to the diagonal; it is symmetric, zero exactly for diagrams that agree off the diagonal, and satisfies the triangle inequality.""",
  [I], "All pairs (and triples, for the triangle inequality) of small diagrams, several powers.", "Tests check a few pairs.",
  ["persistenceDiagrams/distances/Wasserstein.hh", "geometry/distances/Infinity.hh"], [("wassersteinDistance", "persistenceDiagrams/distances/Wasserstein.hh")])

P("P29", "Assignment solver returns a minimum-cost perfect matching",
  """For every square cost matrix the assignment solver returns a permutation, i.e. exactly one selected entry per row and column, with minimum total cost.""",
  [I], "All small integer matrices up to the bound.", "Tests check three matrices.",
  ["persistenceDiagrams/distances/detail/Matrix.hh", "math/KahanSummation.hh", "persistenceDiagrams/distances/detail/Munkres.hh"], [("Munkres", "persistenceDiagrams/distances/detail/Munkres.hh")])

P("P30", "Diagram norms, persistence statistics and entropies equal their formulas",
  """For every diagram the total persistence, p-norm, infinity norm and weighted total persistence, the persistent entropy, the nearest-neighbour area entropy and the grid entropy equal their defining formulas, for every order of the points; points without persistence do not change the persistent entropy and degenerate diagrams do not lead to undefined values. Extracting persistence values lists one value per point in order, and the weighted extraction lists one value per distinct point, weighted by its relative frequency.""",
  [I], "All small diagrams, a grid of parameters.", "Tests check one diagram.",
  ["persistenceDiagrams/Norms.hh", "persistenceDiagrams/Entropy.hh", "persistenceDiagrams/Extraction.hh"],
  [("totalPersistence/pNorm/infinityNorm", "persistenceDiagrams/Norms.hh"), ("persistentEntropy", "persistenceDiagrams/Entropy.hh")])

P("P31", "Envelope of a diagram connects the extremal points",
  """For every diagram and every order of its points the envelope function is the piecewise linear function that connects, in coordinates (creation + destruction, persistence), the highest point over every occurring abscissa. It is zero outside the range of abscissae and unpaired points are ignored by default.""",
  [I], "All small diagrams; all breakpoints and midpoints.", "Tests check one diagram.", ["persistenceDiagrams/Envelope.hh"], [("Envelope", "persistenceDiagrams/Envelope.hh")])

P("P32", "Persistence indicator functions count the active intervals",
  """For every diagram without unpaired points whose points lie on one side of the diagonal, the persistence indicator function counts, at every position other than interval endpoints, how many points are active there; its integral is the total persistence and its maximum the largest count. Diagonal points contribute nothing.""",
  [I], "All small diagrams, all positions between endpoints.", "Tests check one diagram.",
  ["persistenceDiagrams/PersistenceIndicatorFunction.hh", "math/StepFunction.hh"], [("persistenceIndicatorFunction", "persistenceDiagrams/PersistenceIndicatorFunction.hh")])

P("P33", "Step functions form a function algebra",
  """For all step functions built from intervals, addition and subtraction, scalar operations, unary minus, absolute value, power, supremum, integral and normalisation agree with the pointwise definition at every position other than interval end points, and with each other, also for functions that are the results of other operations. At end points, the value of largest absolute value is used. Writing and reading a function reproduces it.""",
  [I, H], "All small step functions, pairs and short operation sequences.", "Tests check a few functions.",
  ["math/StepFunction.hh"], [("StepFunction", "math/StepFunction.hh")])

P("P34", "Piecewise linear functions form a function algebra",
  """For all piecewise linear functions, evaluation interpolates linearly between the given nodes and is zero outside the domain. Addition and subtraction of functions with a common domain, scalar addition and multiplication, negation, absolute value, supremum, and the norms (integral of the absolute value raised to a power) agree with the pointwise definition at every position, also for functions that are the results of other operations; functions with different domains are combined correctly at their nodes. Additional nodes on a segment do not change a function.""",
  [I, H], "All small piecewise linear functions, pairs and short operation sequences.", "Tests check a few functions.",
  ["math/PiecewiseLinearFunction.hh"], [("PiecewiseLinearFunction", "math/PiecewiseLinearFunction.hh")])

P("P35", "Diagram kernels are symmetric, positive and match their formulas",
  """For all pairs of diagrams the multi-scale kernel, the persistence-weighted linear kernel (with default and other weights and kernels) and the Gaussian kernel equal their published closed formulas and are symmetric, and the pseudo-metrics they induce equal sqrt(k(D,D) + k(E,E) - 2k(D,E)): symmetric, non-negative and zero for equal diagrams.""",
  [I], "All pairs of small diagrams, a grid of scales.", "Tests check no closed formula.",
  ["persistenceDiagrams/kernels/MultiScaleKernel.hh", "persistenceDiagrams/kernels/KernelEmbedding.hh"], [("multiScaleKernel", "persistenceDiagrams/kernels/MultiScaleKernel.hh")])

P("P36", "Means of diagrams are stationary",
  """For every non-empty sequence of diagrams of one dimension and every initial diagram the calculation of the mean terminates with a diagram of that dimension without diagonal points, and the result is stationary: there are optimal matchings (sum of squared distances) between the mean and all the inputs such that every point of the mean is the average of its partners, where the diagonal contributes the projection of the point. The mean of copies of one diagram is this diagram without its diagonal points.""",
  [I], "All small sets of small diagrams.", "Tests check one set.", ["persistenceDiagrams/Mean.hh"], [("mean", "persistenceDiagrams/Mean.hh")])

P("P37", "Persistence diagrams survive a round trip through every file format",
  """Every diagram written in text or JSON format and read back consists of the same points in the same order with the same dimension, for finite and infinite values, up to the precision of the output stream (all digits if the stream is configured so); several diagrams in one file are kept apart. Comments and empty lines in text files are ignored. Truncated JSON files and files whose stored counts contradict the points are rejected.""",
  [I], "All small diagrams over an alphabet of finite, negative, high-precision and infinite values, all comment/blank-line placements.", "Tests read single fixed files.",
  ["persistenceDiagrams/io/JSON.hh", "persistenceDiagrams/io/Raw.hh"], [("readJSON/writeJSON", "persistenceDiagrams/io/JSON.hh"), ("load", "persistenceDiagrams/io/Raw.hh")])

P("P38", "Graph readers reproduce the graph described by the file",
  """For every graph without loops and multiple edges that is written in a supported format (GML, GraphML, Pajek, edge lists), reading yields exactly its vertices, edges and weights, whatever identifiers, weights (negative ones and exponents included), order of entries, white space, blank lines and comments are used; vertices keep their numerical identifiers in GML (if all are numerical), Pajek and edge list files, and otherwise get different indices that the reader reports. Edges without weights get weight zero or the functor of the weights of their vertices, as configured. Labels and attributes are reported for the node or edge they belong to, and the generic reader lists labels in the order of vertices. Writing a complex as GML and reading it again yields its vertices and edges. Edges of unknown nodes, duplicate nodes, unmatched brackets and missing or invalid files are reported as errors. A reader object can be reused: the result of reading a file does not depend on the files read before.""",
  [I, H], "All small labelled weighted graphs, format variants, and pairs of files read by one reader.", "Tests read one file per format.",
  ["topology/io/GML.hh", "topology/io/GraphML.hh", "topology/io/Pajek.hh", "topology/io/EdgeLists.hh", "topology/io/SimplicialComplexReader.hh"],
  [("GMLReader", "topology/io/GML.hh"), ("GraphMLReader", "topology/io/GraphML.hh"), ("PajekReader", "topology/io/Pajek.hh"), ("EdgeListReader", "topology/io/EdgeLists.hh")])

P("P39", "Matrix readers reproduce the complex described by the matrix",
  """For every matrix written as text, the adjacency, bipartite adjacency, sparse adjacency and grid readers yield exactly the vertices, edges, triangles and weights the matrix describes: (upper triangle) entries of adjacency matrices and all entries of bipartite matrices are edge weights, entries of grids are vertex weights that are extended by the functor, isolated nodes of sparse matrices are kept. Vertex weights, ignored zeros or NaNs, triangles, functors, labels and attributes follow the configuration of the reader; adjacency complexes are sorted by weight. The result is independent of comments, blank lines, white space and previously read files. Matrices with varying numbers of columns, non-square adjacency matrices, entries that are not numbers, edges of unknown nodes or across graphs, and missing attributes or files are reported as errors.""",
  [I, C], "All small matrices, comment/blank-line placements and reader configurations.", "Tests read one file per format.",
  ["topology/io/AdjacencyMatrix.hh", "topology/io/BipartiteAdjacencyMatrix.hh", "topology/io/SparseAdjacencyMatrix.hh", "topology/io/Matrix.hh"],
  [("AdjacencyMatrixReader", "topology/io/AdjacencyMatrix.hh"), ("BipartiteAdjacencyMatrixReader", "topology/io/BipartiteAdjacencyMatrix.hh"), ("SparseAdjacencyMatrixReader", "topology/io/SparseAdjacencyMatrix.hh"), ("MatrixReader", "topology/io/Matrix.hh")])

P("P40", "Mesh, grid, triangulation and function readers reproduce the described complex",
  """For every small PLY mesh (as text or in binary form of either byte order, with any of the numeric types), VTK structured grid, two-dimensional HDF5 data set, list of triangulations, function file or spectrum, reading yields exactly the vertices, edges and faces described: triangle meshes with all their edges and weights from the selected property; grids with their neighbour edges (and triangles for HDF5) and weights from the values, extended by the functor; the listed simplices for every triangulation; paths with the function values (extended by the functor) for functions and spectra. Loading a function as a boundary matrix yields a filtration of this path with its weights. The result does not depend on white space, comments and blank lines the format permits, on the byte order, or on previously read files. Truncated PLY files of either form, faces that are not triangles or refer to unknown vertices, VTK files with an unexpected number of values, and missing files are reported as errors. Files of lines and points contain the coordinates of exactly the vertices and edges of the complex.""",
  [I, H], "All small files per format with format variants and reader reuse.", "Tests read one file per format.",
  ["topology/io/PLY.hh", "topology/io/VTK.hh", "topology/io/LexicographicTriangulation.hh", "topology/io/LinesAndPoints.hh", "topology/io/Function.hh", "topology/io/FlexSpectrum.hh", "topology/io/HDF5.hh"],
  [("PLYReader", "topology/io/PLY.hh"), ("VTKStructuredGridReader", "topology/io/VTK.hh"), ("LexicographicTriangulationReader", "topology/io/LexicographicTriangulation.hh"), ("FunctionReader/loadFunctions", "topology/io/Function.hh")])

P("P41", "Point clouds keep and reproduce their coordinates",
  """A point cloud returns exactly the coordinates stored last for each point, whatever copies, moves, swaps and concatenations happened before; rejects out-of-range access and points of a wrong dimension; concatenates by appending (clouds of equal dimension only); compares by content; and survives a round trip through its text format whatever separators (white space, comma, semicolon, colon), comments, blank lines, line endings or missing final newline are used, while rows of different lengths are rejected. Points are equal if and only if all coordinates are equal, and ordered lexicographically.""",
  [H, I], "All small clouds, short operation histories and text variants.", "Tests load one file.",
  ["geometry/Point.hh", "containers/PointCloud.hh"], [("set/get/operator+/load", "containers/PointCloud.hh")])

P("P42", "Combination and permutation enumerators visit everything exactly once",
  """Enumerating combinations, permutations, circular, reversible and reversible circular permutations of k out of n elements calls the visitor exactly once per arrangement (up to rotation and reversal for circular and reversible ones), always with the range of selected elements, and restores the original order afterwards. When the visitor asks for stopping, it is not called again and the range holds the arrangement visited last. The counting functions equal the numbers of arrangements, and report an overflow only if the number is not representable.""",
  [I], "All sizes up to the bound, all stopping points.", "Tests check one size.",
  ["math/Combinations.hh"], [("for_each_combination/for_each_permutation", "math/Combinations.hh")])

P("P43", "Matrix and sparse containers return what was stored",
  """A symmetric matrix stores one value per unordered pair of indices and returns it from either index order, is zero initially, knows its size, is independent of its copies, and rejects invalid indices, after any sequence of assignments, copies and swaps. A sparse binary matrix contains exactly the entries that have been set, through all its access paths, rejects invalid columns and reports indices according to its index map.""",
  [H], "All small operation sequences.", "Tests check one sequence.",
  ["math/SymmetricMatrix.hh", "math/SparseMatrix.hh"], [("SymmetricMatrix", "math/SymmetricMatrix.hh"), ("SparseBinaryMatrix", "math/SparseMatrix.hh")])

P("P44", "Statistics helpers equal their formulas",
  """For every sequence of numbers, median, mean, variance, standard deviation, covariance, skewness and kurtosis equal their defining formulas; compensated sums, also after scaling, have an error that does not grow with the number of summands; bootstrap replicates are values of the statistic on samples drawn with replacement, all of which can be drawn, and standard errors and confidence intervals equal their formulas on the replicates; kernel densities and properties of algebraic spheres equal their formulas.""",
  [I, C], "All short sequences over a small alphabet, all parameters on a grid.", "Tests check a few sequences.",
  ["math/KernelDensityEstimator.hh", "math/Quantiles.hh", "math/Statistics.hh", "math/KahanSummation.hh", "math/Bootstrap.hh"], [("quantile/median", "math/Quantiles.hh"), ("sampleMean/sampleVariance", "math/Statistics.hh"), ("KahanSummation", "math/KahanSummation.hh"), ("Bootstrap", "math/Bootstrap.hh")])

P("P45", "Data descriptors of point clouds equal their formulas",
  """For every point cloud the eccentricities of every order, the distance to a measure, the truncated Gaussian density, the lens depth, the correlation integral and its slope, the local dimensionality estimators over a neighbour count or range, principal components (squared singular values are the eigenvalues of the sample covariance), algebraic spheres and mean-shift smoothing equal their defining formulas, with one value per point and for every element type, and commute with permuting the points.""",
  [I, C], "All short sequences of points (hence all permutations and repetitions) on the line, in the plane and in space, all neighbour counts and ranges, a grid of orders and bandwidths.", "Tests check one data set without values.",
  ["containers/DataDescriptors.hh", "containers/DimensionalityEstimators.hh", "containers/FractalDimension.hh", "containers/MeanShift.hh", "math/PrincipalComponentAnalysis.hh"],
  [("eccentricities/estimateDensity", "containers/DataDescriptors.hh"), ("PrincipalComponentAnalysis", "math/PrincipalComponentAnalysis.hh"), ("meanShiftSmoothing", "containers/MeanShift.hh")])

P("P46", "String and file-name helpers obey their specification",
  """For every string, trimming removes exactly the surrounding whitespace, splitting yields exactly the tokens between separators, conversions accept exactly numeric text including infinities and not-a-number in every spelling and report failure otherwise, and base name, stem and extension decompose a file name and reassemble it. Formatting pads to the width of the maximum, file types and existence are reported for every kind of file, the temporary directory is the first configured one, and container and range helpers compute elementwise.""",
  [I], "All strings up to a length over a small alphabet of relevant characters.", "Tests check a few strings.",
  ["utilities/ContainerOperators.hh", "utilities/UnorderedSetOperations.hh", "utilities/Values.hh", "utilities/String.hh", "utilities/Filesystem.hh", "utilities/Format.hh"], [("trim/split/convert", "utilities/String.hh"), ("stem/extension/basename", "utilities/Filesystem.hh"), ("format", "utilities/Format.hh")])

P("P47", "Curvature estimates are those of the best fitting sphere",
  """For every point cloud and neighbourhood size, the tangent space estimator assigns to every point the mean
  curvature of the algebraic sphere that fits its weighted neighbourhood best. In particular, points on a common
  sphere obtain the reciprocal of its radius and points on a common line or plane obtain zero, independently of
  the position of the sphere and of the order of the points.""",
  [I, C], "All point sets up to a size on a grid, a circle and a sphere, all neighbourhood sizes.",
  "The test checks the number of estimates only.",
  ["geometry/TangentSpace.hh", "math/AlgebraicSphere.hh"], [("TangentSpace", "geometry/TangentSpace.hh"), ("AlgebraicSphere", "math/AlgebraicSphere.hh")])

P("P48", "Random generators produce exactly the stated distributions",
  """For every sequence of outcomes of the underlying random draws, the random graph generators return a graph on all
  requested vertices, in filtration order, whose edges are exactly the successful trials and whose weights are the
  lengths of the runs of successes, and distinct outcomes give distinct graphs. Sphere sampling returns the requested
  number of points with uniform density per area, torus sampling accepts an angle with a probability proportional to
  its area element, and the angles are mapped to points on the sphere or torus with the given radii and centre.""",
  [I, C], "All outcomes of the draws for small graphs, a complete lattice of draws for the samplings, a grid of radii, probabilities and centres.",
  "Tests draw one random graph and compare sizes.",
  ["topology/RandomGraph.hh", "geometry/SphereSampling.hh", "geometry/TorusSampling.hh"],
  [("generateErdosRenyiGraph", "topology/RandomGraph.hh"), ("sphereSampling/makeSphere", "geometry/SphereSampling.hh"), ("torusRejectionSampling/makeTorus", "geometry/TorusSampling.hh")])

P("P49", "TikZ pictures depict exactly the vertices, edges and triangles",
  """For every complex with planar coordinates, the TikZ writer emits one coordinate at the right position and one point
  per vertex, one line per edge, and, if requested, one filled triangle per 2-simplex, one ball per vertex and labels,
  each referring to the right vertices with the configured colour, size and opacity, and nothing else. Vertices without two
  coordinates and files that cannot be written are reported.""",
  [I, C], "All complexes on few vertices, all combinations of the options, all coordinate assignments over a small alphabet.",
  "There is no test for the writer.",
  ["topology/io/TikZ.hh"], [("TikZ", "topology/io/TikZ.hh")])

B = "bindings/python/aleph.cc"

P("P50", "Python objects behave as the sets, sequences and functions they stand for",
  """Every simplex, simplicial complex, persistence diagram and step function of the Python module has the length, members,
  iteration order, truth value, comparisons, items and attributes of the vertex set, duplicate-free sequence of simplices,
  multiset of points or function that it was built from, whichever of the supported descriptions it was built from.
  Appending, sorting, removing points, setting attributes and arithmetic change exactly what they name and no operand
  besides; invalid indices raise an exception; and iterators, simplices, points and arrays remain valid after the object
  they were obtained from is no longer referenced.""",
  [I, H], "All vertex lists, all pairs of simplices, all small complexes in several descriptions and orders, all intervals on a grid; every object also as a temporary.",
  "The tests of the module print a handful of objects without looking at the output.",
  [B, "bindings/python/__init__.py"], [("wrapSimplex", B), ("wrapSimplicialComplex", B), ("wrapPersistenceDiagram", B), ("wrapStepFunction", B)],
  ["the Python module aleph"])

P("P51", "Python calculations agree with the definitions for every array layout",
  """The persistence diagrams that the Python module calculates for a filtered complex, the Vietoris-Rips complex of an array
  of points, and the bipartite graph of a weight matrix in either direction are those of the definition, with the
  requested substitute for unpaired points, for every memory layout (order, strides, views, reversed axes) and convertible
  type of the array, which is never modified. Zero-dimensional pairings, Rips expansions, norms, Wasserstein, Hausdorff
  and bottleneck distances and kernels called from Python equal their definitions with the documented default arguments.
  Loaded files yield the stored graph, with weights of edges given by the functor.""",
  [I, C], "All small filtered complexes, point sets, matrices, layouts, diagrams, graphs and combinations of optional arguments.",
  "The tests calculate one diagram and never pass an array to the module.",
  [B], [("wrapPersistentHomologyCalculation", B), ("wrapDistanceCalculations", B), ("wrapNorms", B), ("wrapInputFunctions", B)],
  ["the Python module aleph"])

P("P52", "Vietoris-Rips calculations on distance matrices select the right edges",
  """For every symmetric distance matrix passed from Python, in every memory layout and whatever its diagonal and lower
  triangle contain, the persistence diagrams are those of the Vietoris-Rips filtration up to the requested dimension; the
  selected edges form a minimum spanning tree with the smaller vertex first; and the selected pairs of edges consist of
  the edge that creates a cycle and the longest edge of the triangle that destroys it. Matrices that are not square are
  rejected.""",
  [I, C], "All distance matrices over few values for up to five points, all orders of the distances between four points, all layouts.",
  "No test calls these functions; ties and edges far away from the creator of a component need particular matrices.",
  [B], [("wrapVietorisRipsComplexCalculation", B)],
  ["the Python module aleph"])

def tool(*names):
    return ["src/tools/%s.cc" % n for n in names], [(n, "src/tools/%s.cc" % n) for n in names]


P("P53", "Diagram tools report statistics, signatures and distances of the given files",
  """For every list of persistence diagram files, the diagram tools report, per file or per pair of files in the given order,
  exactly the values of the definition: name, dimension, size, total persistence and norms without the values declared
  invalid, entropies, mean indicator functions with norm and variance, signatures, and matrices of Hausdorff, Wasserstein,
  bottleneck and indicator function distances over all dimensions with the requested power, treatment of diagonal,
  duplicate and unpaired points, and kernel. Empty diagrams and unpaired points are treated as the definition says, and calls without files print nothing to the
  standard output and fail.""",
  [I, C], "All multisets of few intervals as files, all pairs and lists of them, every documented option with several values.",
  "The tools are never run by the tests.",
  *tool("persistence_diagram_statistics", "persistence_diagram_entropies", "persistence_indicator_function", "make_signature", "topological_distance"),
  ["the command-line tools"])

P("P54", "Graph tools report the topology of the given graphs",
  """For every weighted graph, given as an edge list, a GML file, an adjacency matrix or a set of graphs, with arbitrary
  vertex identifiers and labels, the graph tools report exactly the Betti numbers, the zero-dimensional diagram and the
  relevance of the merging edges, the persistence diagrams of degree and weight filtrations expanded to the requested
  dimension, the clique communities per threshold, their persistence diagrams, sizes and accumulated persistence, closeness
  centralities and written graphs that the definitions yield, with the requested normalisation, inversion and substitute for
  unpaired points.""",
  [I, C], "All weighted graphs on up to four vertices with few weights, every documented option with several values.",
  "The tools are never run by the tests.",
  *tool("betti_numbers", "graph_analysis", "relevant_edges", "clique_communities_to_json", "clique_persistence_diagram", "connectivity_matrix_analysis", "sparse_adjacency_matrices"),
  ["the command-line tools"])

P("P55", "Function tools report the topology of the given functions",
  """For every list of functions, given as lines, spectra or piecewise linear functions, the function tools report exactly the
  diagrams of sub- or superlevel sets, the interlevel set persistence hierarchy, the smoothed functions, the confidence bands
  and the glyph values that the definitions yield, in the order of the input, with the requested normalisation, condensing,
  number of steps, confidence, bins and scale, whether input comes from files or the standard input.""",
  [I, C], "All sequences of few values and small diagrams, every documented option with several values.",
  "The tools are never run by the tests.",
  *tool("function_analysis", "spectral_analysis", "interlevel_set_persistence_hierarchy", "piecewise_linear_function_smoothing", "persistence_indicator_function_confidence_sets", "persistence_indicator_function_glyph"),
  ["the command-line tools"])

P("P56", "Point cloud tools report descriptors and complexes of the given points",
  """For every point cloud, the point cloud tools report exactly what the definitions yield for it, in the order of its points:
  diagrams of its Vietoris-Rips complex under the requested density, eccentricity or Gaussian descriptor, optionally inverted,
  normalised and without unpaired points; local dimensionality estimates and their smoothing; the mean curvature of points on
  circles; heat kernel signatures scaled by the mean edge length of the beta-skeleton; distributions of distances and degrees;
  normalised image patches of high contrast; the points of a cover tree; and the Cech complex together with a subcomplex
  without free faces that has the same Betti numbers.""",
  [I, C], "All sets of up to four points of a small grid, of a line and of a box, every documented option with several values.",
  "The tools are never run by the tests.",
  *tool("point_cloud_data_descriptors", "local_dimensionality", "mean_curvature", "multi_scale_skeleton", "rips_distributions", "process_image_patches", "cover_tree", "persistent_spines"),
  ["the command-line tools"])

P("P57", "Network and intersection homology tools follow their definitions",
  """For every connectivity matrix, missing and zero entries included, the merged diagrams of its ascending and descending
  filtrations, or of its distances, are reported per file and dimension with the requested substitute for infinity. For every
  stratified graph, the total persistence or the diagram of its connected components is reported under the requested
  filtration, order, vertex weights and normalisation. For every triangulation, Betti numbers, Euler characteristic and the
  intersection homology of its subdivision for all perversities are reported, and for every point cloud with singular points
  the diagrams of ordinary and of intersection homology, per dimension.""",
  [I, C], "All small matrices, graphs, triangulations and sets of singular points, every documented option with several values.",
  "The tools are never run by the tests.",
  *tool("ephemeral", "stratified_graph_analysis", "wicked_triangulations", "persistent_intersection_homology"),
  ["the command-line tools"])
