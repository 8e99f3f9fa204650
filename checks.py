"""Registry of the explorers: which source decides which property."""

# Libraries are only linked where a harness needs them.
HDF5 = ["-I/usr/include/hdf5/serial", "-L/usr/lib/x86_64-linux-gnu/hdf5/serial"]

CHECKS = {
    "P01": dict(src="pairing.cc",
                technique="exhaustive enumeration of filtrations, rank-based reference pairing",
                bounds="all filtrations of all complexes on <=3 labelled vertices, all filtrations on 4 vertices up to relabelling, all 7581 labelled complexes on 5 vertices in two orders; 4 representations x 3 algorithms x primal/dual x with/without unpaired creators; all limits on complexes with <=12 simplices; larger families: all named complexes of big.hh (simplices and skeletons, spheres, surfaces, graphs, multipartite and disjoint unions) with at most 150 (thorough 300) simplices, four orders; all sequences of up to 4 (thorough 6) operations on a pairing",
                oracle="pairing characterised by ranks of lower-left submatrices, without any reduction"),
    "P02": dict(src="diagrams.cc",
                technique="exhaustive enumeration of weighted complexes and 1D functions vs rank-based reference diagrams",
                bounds="complexes on <=4 vertices up to isomorphism with all monotone weights over 3 values (sublevel, superlevel, integer), all 168 labelled complexes with 2 values, 5-vertex complexes up to isomorphism with weights by dimension, all 1D functions of length <=5 over 4 values and 6 over 3 values; every subset of the diagrams; larger families: all named complexes of big.hh (simplices and skeletons, spheres, surfaces, graphs, multipartite and disjoint unions) with at most 130 (thorough 250) simplices, several orders and weightings",
                oracle="reference pairing from ranks, Betti numbers from ranks, alternating sums"),
    "P03": dict(src='components.cc',
                technique='exhaustive enumeration of filtered graphs/complexes vs naive component relabelling',
                bounds='all filtrations and all weakly increasing weights (2-3 levels) of complexes on <=3 vertices; all labelled graphs on 4 vertices with monotone weights over 2 values and 4-vertex complexes up to isomorphism over 3 values (both directions); 5-vertex graphs up to isomorphism over 2 values; lower-star filtrations of paths, cycles and trees on 5-6 vertices; larger families: all named complexes of big.hh (simplices and skeletons, spheres, surfaces, graphs, multipartite and disjoint unions) with at most 130 (thorough 250) simplices, several orders and weightings; parents in the hierarchies of all orders of values on paths with up to 7 (thorough 8) vertices',
                oracle='naive relabelling of components with the elder rule; general persistence algorithm'),
    "P04": dict(src='simplex.cc',
                technique='exhaustive enumeration of vertex sequences and simplex pairs/triples vs set semantics',
                bounds='all vertex sequences of length <=5 over 4 vertices (and <=4 over boundary-value alphabets, 5 type combinations); all pairs and triples of the resulting simplices; larger families: simplices with up to 140 vertices for three type combinations',
                oracle='std::set semantics, order axioms'),
    "P05": dict(src='complexops.cc',
                technique='explicit-state BFS over container operation histories vs sequence model',
                bounds='complete closure of all operations on 2 vertices x 3 weights; all histories of depth <=4 on 3 vertices (<=3 with weights); removals and face completion on 4 vertices; larger families: all named complexes of big.hh (simplices and skeletons, spheres, surfaces, graphs, multipartite and disjoint unions) with at most 100 (thorough 200) simplices, all removals',
                oracle='sequence-of-simplices model; all views compared after every step'),
    "P06": dict(src='filtrations.cc',
                technique='exhaustive enumeration of weighted complexes and initial orders vs filtration axioms',
                bounds='all complexes on <=3 vertices with all monotone weights over 3 values and all initial orders (<=4 simplices) or four orders, 4-vertex complexes with 2 values, lower/upper stars for all vertex functions over 4 (n=3), 3 (n=4, all 168 labelled complexes) and 2 (n=5) values, all vertex/edge weights over 2-3 values for recalculation; larger families: all named complexes of big.hh (simplices and skeletons, spheres, surfaces, graphs, multipartite and disjoint unions) with at most 110 (thorough 220) simplices, several vertex functions',
                oracle='filtration axioms, direct max/min over faces'),
    "P07": dict(src='boundary.cc',
                technique='exhaustive enumeration of column-operation histories vs bit-matrix model',
                bounds='all 3x3 matrices x all operation sequences of length 2-3 for five representations (with and without interleaved queries), matrices/truncations/duals of all filtrations on <=3 vertices and all 4-vertex complexes, all placements of blank/comment lines in all 3-vertex matrix texts; larger families: all named complexes of big.hh (simplices and skeletons, spheres, surfaces, graphs, multipartite and disjoint unions) with at most 110 (thorough 220) simplices, five representations',
                oracle='bit-matrix arithmetic over GF(2)'),
    "P08": dict(src='unionfind.cc',
                technique='exhaustive enumeration of merge/query histories vs naive partition',
                bounds='all histories of merges and path-compressing queries (2 elements: depth 5, 3: depth 4, 4: depth 3; three element types), all complete merge orders on 4 elements (5 in thorough); larger families: seven kinds of merge histories on 5 to 130 elements; 256, 257 and 300 elements',
                oracle='naive relabelling of a partition'),
    "P09": dict(src='setops.cc',
                technique='exhaustive enumeration of complexes and simplex pairs vs set operations',
                bounds='all simplex pairs on 6 vertices; all 168 labelled complexes on <=4 vertices in up to four orders with all predicates (<=10 simplices), all skeletons and all query simplices; 5-vertex complexes up to isomorphism; larger families: all named complexes of big.hh (simplices and skeletons, spheres, surfaces, graphs, multipartite and disjoint unions) with at most 70 (thorough 150) simplices',
                oracle='bit-mask set operations'),
    "P10": dict(src='rips.cc',
                technique='exhaustive enumeration of weighted graphs vs brute-force clique complex',
                bounds='all labelled graphs on <=5 vertices (3 weightings/orders/identifier schemes), 6 vertices up to isomorphism, all weights over {-1,0,2} on 3 vertices and all edge weights over {-2,-1,3} on 4 vertices up to isomorphism; all target dimensions; larger families: all named graphs of big.hh with at most 40 (thorough 90) vertices and edges',
                oracle='subset enumeration of cliques, maxima over faces'),
    "P11": dict(src='vietoris.cc',
                libs=["-lflann", "-llz4"],
                technique='exhaustive enumeration of point clouds, scales and dimensions vs definition',
                bounds='all multisets of <=4 points on a 3x3 planar grid (all ordered pairs; 5 points in thorough), all sequences/multisets of <=5 points on a line, 4-point multisets on a spatial grid; scales at and between all distances; all dimensions; brute-force and kd-tree backend, two metrics; larger families: all named clouds of points.hh (grids, circles, lines, clusters, spheres) with at most 24 (thorough 48) points',
                oracle='pairwise distances of all vertex subsets'),
    "P12": dict(src='neighbours.cc',
                libs=["-lflann", "-llz4"],
                technique='exhaustive enumeration of point clouds and queries vs definition',
                bounds='as for the Vietoris-Rips complexes plus 256 subsets of a 4x4 grid with up to 16 points; all separating radii, all k up to n+1; 4 metric/backend combinations each; all vector pairs over small alphabets in dimensions 1-9; larger families: all named clouds of points.hh with at most 30 (thorough 60) points; clouds scaled by powers of two from 2^-30 to 2^30; clouds of 270 points',
                oracle='direct evaluation of the metrics'),
    "P13": dict(src='cech.cc',
                technique='exhaustive enumeration of planar point sets and radii vs enumerated candidate balls',
                bounds='all sequences of <=3 and multisets of 4 points on a 3x3 grid, all 5-point subsets, all 3-point multisets on a 4x4 grid, all <=4 points on a line; one radius between every two consecutive critical radii; for every simplex a radius slightly below and slightly above its own, for edges of dyadic length that radius itself; spatial and four-dimensional grids; larger families: all named clouds of points.hh with at most 7 points',
                oracle='smallest enclosing balls by enumeration of all balls through one, two or three points'),
    "P14": dict(src='witness.cc',
                technique='exhaustive enumeration of point sets, landmark subsets, parameters and random seeds vs definition',
                bounds='all multisets of <=4 points on a 3x2 grid and a line x all landmark subsets in two orders x nu<=#landmarks x four radii x dimensions; max-min selections from every start point for all multisets of <=4 points on a 3x3 grid; all (n,k) with 200 seeds for random selection; larger families: all named clouds of points.hh with at most 16 points',
                oracle='definition of the witness relation, brute-force max-min'),
    "P15": dict(src='dowker.cc',
                technique='exhaustive enumeration of weight matrices and thresholds vs definition',
                bounds='all matrices: 2x2 over {0,1,2,5} with diagonals over {0,3}, 3x3 over {0,1,3}, 4x4 over {0,2}; all thresholds at and above path lengths; dimensions 0-2; larger families: nine kinds of relations on 5 to 7 (thorough 8) elements',
                oracle='shortest paths by relaxation, enumeration of all vertex sets and base points, Betti numbers by ranks'),
    "P16": dict(src='beta.cc',
                technique='exhaustive enumeration of point sets and beta values vs definition',
                bounds='all sequences of <=3, multisets of 4 and 5 points on a 3x3 grid, multisets of 3-4 points on an irregular 4x4 grid, line and spatial grid; six beta values; larger families: all named clouds of points.hh with at most 24 (thorough 31) points',
                oracle='direct evaluation of the empty-region condition'),
    "P17": dict(src='covertree.cc',
                technique='exhaustive enumeration of insertion sequences vs tree invariants',
                bounds='all sequences of distinct points: <=5 of 7 and <=6 of 6 points on a line (three alphabets), <=4 of 9 points in the plane; larger families: five kinds of histories of 7 to 70 (thorough 120) points on a line and in the plane',
                oracle='nesting, covering and separation evaluated on the nodes'),
    "P18": dict(src='cliques.cc',
                technique='exhaustive enumeration of graphs and complexes vs subset enumeration',
                bounds='all labelled graphs on <=5 vertices in two orders and identifier schemes, 6 vertices up to isomorphism (all labelled in thorough); clique graphs of all labelled 4-vertex complexes, 5 vertices up to isomorphism, and all monotone 2-valued weightings of 4-vertex complexes; all k; three weight functions; larger families: all named graphs of big.hh with at most 30 (thorough 60) and complexes with at most 100 (260) simplices',
                oracle='enumeration of all vertex subsets / simplex pairs'),
    "P19": dict(src='subdivision.cc',
                technique='exhaustive enumeration of complexes vs flag complexes',
                bounds='all labelled complexes on <=4 vertices in three orders/labellings, 5 vertices up to isomorphism (dimension <=2 in quick), all monotone 3-valued weightings on 3 vertices; three scaling functors; second subdivisions on 3 vertices; larger families: all named complexes of big.hh (simplices and skeletons, spheres, surfaces, graphs, multipartite and disjoint unions) with at most 80 (thorough 200) simplices',
                oracle='enumeration of all chains of simplices'),
    "P20": dict(src='quotients.cc',
                technique='exhaustive enumeration of complexes vs join construction and Betti numbers',
                bounds='all labelled complexes on <=4 vertices in two orders/labellings, 5 vertices up to isomorphism (all labelled in thorough), all monotone 3-valued weightings on 3 vertices; default and user-supplied weights; larger families: all named complexes of big.hh (simplices and skeletons, spheres, surfaces, graphs, multipartite and disjoint unions) with at most 150 (thorough 600) simplices, four labellings',
                oracle='explicit join, Betti numbers by ranks'),
    "P21": dict(src='spine.cc',
                technique='exhaustive enumeration of complexes and orders vs collapse definition',
                bounds='all complexes on <=3 vertices in all orders, all labelled complexes on 4 vertices in three orders, 5 vertices up to isomorphism (all labelled in thorough), all graphs on 5 vertices; both implementations; larger families: all named complexes of big.hh (simplices and skeletons, spheres, surfaces, graphs, multipartite and disjoint unions) with at most 80 (thorough 150) simplices, four labellings and orders',
                oracle='free faces by enumeration, Betti numbers by ranks'),
    "P24": dict(src='paths.cc',
                technique='exhaustive enumeration of weighted graphs vs enumeration of simple paths',
                bounds='all weighted graphs: 3 vertices over 5 weights, 4 vertices over 4 weights, 5 vertices over 1 (2 in thorough) weights; two data types, identifiers with gaps, default weights; larger families: all named graphs of big.hh with at most 31 vertices',
                oracle='enumeration of all simple paths'),
    "P22": dict(src='mesh.cc',
                technique='exhaustive enumeration of face insertion histories vs polygon-complex model',
                bounds='all face sequences up to renaming whose final mesh is a surface: triangles on 4 vertices (all), 5 vertices (<=4 faces, all orders including non-manifold prefixes), 6 vertices (<=3 faces), mixed triangles/quadrilaterals (<=3 faces); all orders of a bipyramid, a 2x2 grid and an open cube; all histories of 4 vertex insertions with automatic or given identifiers; larger families: grids, cylinders, tori, strips, fans and prisms with up to 20 (thorough 36) vertices',
                oracle='neighbourhoods computed from the list of faces'),
    "P23": dict(src='intersection.cc',
                technique='exhaustive enumeration of filtered stratified complexes and perversities vs ranks of allowable chain groups',
                bounds='all complexes on <=3 vertices with all filtration orders, 4-vertex complexes up to isomorphism in two orders; all chains of strata (tetrahedron: strata with <=5 simplices), all perversities; all predicates on all 3-vertex filtrations; all perversity value vectors of length <=4 over {-2..4}',
                oracle='ranks of boundary matrices restricted to allowable chains, evaluated for every pair of filtration steps'),
    "P25": dict(src='laplacian.cc',
                technique='exhaustive enumeration of weighted graphs and complexes vs spectral and counting formulas',
                bounds='all graphs on <=4 vertices with all edge weights over 2 values, all labelled graphs on <=5 vertices, all labelled complexes on <=4 vertices (four weightings, two orders), 5 vertices up to isomorphism, all monotone 3-valued weightings on 3 vertices; four times; larger families: all named graphs of big.hh with at most 16 (thorough 30) and complexes with at most 80 (200) simplices',
                oracle='Jacobi eigenvalue decomposition, counting of faces and cofaces, induced subcomplexes'),
    "P26": dict(src='multiset.cc',
                technique='exhaustive enumeration of edit histories vs list model',
                bounds='all point sequences of length <=4 over 4-5 points (diagonal, unpaired, inverted) with every operation, all pairs of sequences of length <=2, all histories of 4 operations; three data types; larger families: all named diagrams of pd.hh with up to 30 (thorough 60) points; diagrams with 300 points',
                oracle='list of pairs'),
    "P27": dict(src='bottleneck.cc',
                technique='exhaustive enumeration of diagram pairs vs enumeration of all matchings',
                bounds='all pairs of diagrams with <=3 x <=2 points over 6 points, <=4 x <=3 over 4 points, <=3 x <=3 with unpaired and inverted points; both orders; two data types; larger families: all pairs of named diagrams of pd.hh with up to 10 (thorough 16) points; coordinates scaled by very small and very large powers of two',
                oracle='enumeration of all partial matchings; direct evaluation of suprema and infima'),
    "P28": dict(src='wasserstein.cc',
                technique='exhaustive enumeration of diagram pairs and triples vs enumeration of all matchings',
                bounds='all pairs of diagrams with <=3 x <=2 points over 6 points, <=4 x <=3 over 4 points, <=3 x <=3 with inverted points; powers 1-3; all triples of 15 diagrams; larger families: all pairs of named diagrams of pd.hh with up to 10 (thorough 20) points; coordinates scaled by very small and very large powers of two',
                oracle='enumeration of all partial matchings'),
    "P29": dict(src='assignment.cc',
                technique='exhaustive enumeration of cost matrices vs enumeration of all permutations',
                bounds='all matrices: n<=2 over 6 values, n=3 over 3 values (5 sets, 4 data types), n=4 over 2 values; 12500 structured 5x5 matrices; n=3 over 3 values of magnitude 2^-300 to 2^300; larger families: ten kinds of matrices with 5 to 24 (thorough 40) rows',
                oracle='enumeration of all permutations'),
    "P30": dict(src='norms.cc',
                technique='exhaustive enumeration of diagrams, in every order, vs formulas',
                bounds='all sequences of up to 5 (thorough 6) points over alphabets of 3 to 6 points, 3 data types, 4 powers, 4 grid sizes; larger families: all named diagrams of pd.hh with up to 40 (thorough 80) points; coordinates scaled by very small and very large powers of two; diagrams with 300 points',
                oracle='direct evaluation of the formulas',
                libs=["-lflann", "-llz4"]),
    "P31": dict(src='envelope.cc',
                technique='exhaustive enumeration of diagrams, in every order, vs direct interpolation on a fine grid of positions',
                bounds='all sequences of up to 5 (thorough 6) points over 7 points, float and double, superlevel diagrams; larger families: all named diagrams of pd.hh with up to 30 (thorough 60) points; coordinates scaled by very small and very large powers of two; diagrams with 300 points; all configurations of the envelope',
                oracle='direct interpolation of the extremal points'),
    "P32": dict(src='indicator.cc',
                technique='exhaustive enumeration of diagrams, in every order, vs counting intervals at all positions of a grid',
                bounds='all sequences of up to 5 (thorough 6) points over 7 points, up to 3 of all 10 points with coordinates 0..3, superlevel diagrams; larger families: all named diagrams of pd.hh with up to 30 (thorough 60) points; coordinates scaled by very small and very large powers of two; diagrams with 300 points',
                oracle='counting the intervals containing a position'),
    "P33": dict(src='step.cc',
                technique='exhaustive enumeration of step functions, pairs, triples and short operation sequences vs pointwise evaluation',
                bounds='all functions on up to 4 (thorough 5) unit intervals over 5 values and undefined; all pairs on up to 3 (4) intervals; all triples on 3 intervals; larger families: periodic patterns on up to 20 (thorough 40) intervals, pairs on up to 9 (14)',
                oracle='pointwise evaluation on the intervals'),
    "P34": dict(src='pl.cc',
                technique='exhaustive enumeration of piecewise linear functions, pairs, triples and short operation sequences vs pointwise evaluation',
                bounds='all functions on subsets of 4 (thorough 5) nodes over 5 values; all pairs on 3 nodes over 5 values and on 4 nodes over 2 (3) values; all triples on 3 nodes; larger families: periodic patterns on up to 16 (thorough 30) nodes and their pairs',
                oracle='pointwise evaluation on a fine grid, closed formulas for integrals'),
    "P35": dict(src='kernels.cc',
                technique='exhaustive enumeration of pairs of diagrams, in every order, vs closed formulas',
                bounds='all pairs of sequences of up to 3 (thorough 4) points over 4 points, 4 scales, 8 parameter combinations; larger families: pairs of named diagrams of pd.hh with up to 8 (thorough 14) points',
                oracle='direct evaluation of the formulas'),
    "P36": dict(src='mean.cc',
                technique='exhaustive enumeration of sets of diagrams and initial diagrams vs enumeration of all matchings',
                bounds='all sequences of up to 3 diagrams with up to 2 of 4 points, of 2 diagrams with up to 3 of 4 points, of 4 (thorough 5) diagrams with up to one point; 16 random seeds for the initial diagram; dimensions 0 and 2; larger families: named diagrams of pd.hh with up to 12 (thorough 20) points',
                oracle='enumeration of all matchings'),
    "P37": dict(src='diagio.cc',
                technique='exhaustive enumeration of diagrams, file layouts and truncated files vs the written points',
                bounds='all sequences of up to 4 (thorough 5) points over 6 values incl. infinities, sequences of up to 4 diagrams, all comment/blank line placements for up to 2 points, full precision values, every proper prefix of JSON files, wrong counts; larger families: all named diagrams of pd.hh with up to 24 (thorough 60) points; diagrams with 300 points',
                oracle='the written points'),
    "P46": dict(src='strings.cc',
                technique='exhaustive enumeration of strings and paths over small alphabets, all file types, all environment settings, all small vectors',
                bounds='all strings up to length 5 (thorough 6) over 5 characters, numbers up to length 5 (6) over 7 characters, all spellings of infinity, paths up to length 6 (8) over 4 characters, maxima up to 1100 (100100), 16 environments, all pairs of vectors up to length 3 over 4 values',
                oracle='character-wise scanning'),
    "P42": dict(src='combos.cc',
                technique='exhaustive enumeration of range lengths, numbers of selected elements and stopping points vs recursive enumeration',
                bounds='all ranges of up to 7 (thorough 8) elements, all numbers of selected elements, vectors and lists, all stopping points for up to 5 (6) elements; counts for all pairs of 8 bit arguments, 16 bit arguments up to 300 (1000), 32 bit arguments up to 40; larger families: ranges of up to 24 (thorough 40) elements with at most 4000 (30000) arrangements',
                oracle='recursive enumeration with canonical representatives, exact counts'),
    "P43": dict(src='matrices.cc',
                technique='exhaustive enumeration of operation sequences vs maps of entries',
                bounds='symmetric matrices: all pairs of matrices with up to 4 rows and all sequences of up to 2 (thorough 3) of 31 operations; up to 12 (24) rows with all entries; sparse matrices: all sequences of up to 4 (5) entries in up to 3 columns, index maps of all lengths; larger families: structured sparse matrices with up to 30 (thorough 60) columns',
                oracle='maps of entries'),
    "P44": dict(src='statistics.cc',
                technique='exhaustive enumeration of short sequences of numbers, operation sequences and random choices vs the defining formulas',
                bounds='all sequences of up to 5 (thorough 7) of 5 values for moments and medians, pairs of up to 4+4 values for covariances, up to 6 (8) summands of extreme magnitudes, up to 5 (6) of 11 operations for compensated sums, all random choices for up to 6 (9) draws of the bootstrap, all spheres with centres on a grid in up to 3 dimensions; larger families: five kinds of sequences of up to 60 (thorough 150) values',
                oracle='direct evaluation of the formulas in higher precision'),
    "P38": dict(src='graphs.cc',
                technique='explicit enumeration of small graphs and file layouts on the real readers',
                bounds='graphs with up to 4 (thorough: 5) vertices and all sets of edges in GML, Pajek, GraphML and edge list files; styles of identifiers, weights of nodes and edges, orders of entries, brackets, indentation, comments, blank lines, separators; fresh and reused readers; written files; files with missing or duplicate nodes, brackets or tokens; larger families: named graphs with up to 13 (thorough 40) vertices',
                oracle='graph from which the file was generated',
                flags=HDF5, libs=["-ltinyxml2", "-lhdf5_serial_cpp", "-lhdf5_serial"]),
    "P39": dict(src='matrixio.cc',
                technique='explicit enumeration of small matrices, layouts and configurations on the real readers',
                bounds='matrices with up to 3x3 (grids up to 9 entries) entries over 2-3 values in 5 layouts with all configurations; matrices with more entries than vertices are representable; all row lengths up to 4; sparse adjacency matrices with up to 4 nodes in up to 3 graphs, all sets of edges, labels and attributes; fresh and reused readers; larger families: four kinds of matrices with up to 20 (thorough 40) rows; default arguments of the readers',
                oracle='complex from which the file was generated'),
    "P41": dict(src='clouds.cc',
                technique='explicit exploration of operation histories and text layouts on the real point clouds',
                bounds='all histories of up to 4 (thorough: 5) of 18 operations on two clouds; clouds with up to 3 points of dimension up to 3 over 2-4 values in 8 separators x 6 layouts; all ragged files with up to 3 rows; all pairs of points with up to 3 coordinates over 3 values; larger families: clouds with up to 40 (thorough 120) points of dimension up to 12',
                oracle='list of coordinate vectors'),
    "P40": dict(src='files.cc',
                technique='explicit enumeration of small data sets and file layouts on the real readers',
                bounds='PLY meshes with up to 4 vertices and all sets of triangles, 3 orders of properties x 3 layouts x 4 data properties, all truncated files; binary PLY files of both byte orders with 6 x 6 combinations of numeric types, truncated at every byte; VTK grids up to 3x3x3 in 4 layouts; 31 sets of simplices with white space, comments and line breaks at every position; graphs with up to 4 vertices as lines and points; all functions of length up to 5 (6-7) over 3 (2) values; spectra with up to 5 values; HDF5 grids up to 4x4 in 4 types; fresh and reused readers; larger families: structured PLY meshes, functions with up to 40 (thorough 80) values; VTK grids of every data type',
                oracle='complex from which the file was generated',
                flags=HDF5, libs=["-ltinyxml2", "-lhdf5_serial_cpp", "-lhdf5_serial"]),
    "P45": dict(src='descriptors.cc',
                technique='exhaustive enumeration of small point sequences against the defining formulas',
                bounds='all sequences (with repetitions, hence all permutations) of up to 4 points (thorough 5) from 5 points of the line, 6 of the plane and 5 of space; eccentricity orders 0-3, all neighbour counts and ranges, bandwidths 0.5-3; Euclidean and Manhattan distance, brute force and FLANN neighbours, float and double; all algebraic spheres of dimension 1-3 with centres over 4 coordinates, 4 radii, 5 factors; larger families: all named clouds of points.hh with at most 11 (thorough 16) points',
                oracle='independent evaluation of each formula per point, covariance matrix rebuilt from the components, Jacobi eigenvalues for spectral gaps',
                libs=["-lflann","-llz4"]),
    "P47": dict(src='tangent.cc',
                technique='exhaustive enumeration of small point sets against an independent least-squares solution',
                bounds='all subsets of 4-6 (thorough 8) of 12 circle points at two positions, of 5-6 (thorough 8) of 12 sphere points, of 4-6 (thorough 8) of a 4x3 grid and of 4-5 (thorough 7) of two parallel lines, listed in both directions, all neighbourhood sizes from dimension+1 to the number of points; larger families: nearly complete subsets of the alphabets, a hypersphere, rows with up to 18 (thorough 30) points',
                oracle='exact fits by Gaussian elimination, others by Cholesky factorisation and Jacobi eigenvalues; neighbourhoods whose minimiser is not unique are only checked for the number of estimates',
                libs=["-lflann","-llz4"]),
    "P48": dict(src='generators.cc',
                technique='exhaustive enumeration of all outcomes of the random draws, which the explorer supplies',
                bounds='all success/failure vectors of graphs with up to 4 (thorough 5) vertices and 5 probabilities; all run-length vectors 0..3 of weighted graphs with up to 3 (thorough 4) vertices and 3 probabilities; 24x24 draws of the sphere, 16x16 draws of the torus for 6 pairs of radii; float and double; larger families: graphs with 5 to 10 (thorough 16) vertices for patterns of draws',
                oracle='number and weights of edges per outcome, bijection between outcomes and graphs, equal counts per cell of equal area, exact acceptance region, parametrisations'),
    "P49": dict(src='tikz.cc',
                technique='exhaustive enumeration of small complexes and all options, with a parser of the pictures',
                bounds='all complexes on 4 (thorough 5) labelled vertices, 3 coordinate assignments, all 16 combinations of options, streams and files; larger families: all named complexes of big.hh (simplices and skeletons, spheres, surfaces, graphs, multipartite and disjoint unions) with at most 100 (thorough 300) simplices',
                oracle='the picture is parsed and compared with the multiset of elements required by the complex; every coordinate must be defined before it is used'),
    "P50": dict(src='py_objects.py',
                technique='exhaustive enumeration of objects and operations of the Python module, built with sanitizers, vs sets, lists and functions',
                bounds='all vertex lists of length <=4 (thorough 5) over 4 vertices with 5 weights, all pairs of lists of length <=3, all complexes on <=3 (thorough 4) vertices in 3 orders x 4 descriptions x 2 weightings with every further simplex, diagrams of all complexes on <=4 vertices, all multisets of <=2 (thorough 3) intervals, all pairs of intervals',
                oracle='Python sets, lists, sorting and rank-based diagrams; every object is also used as a temporary whose memory is reused'),
    "P51": dict(src='py_homology.py',
                technique='exhaustive enumeration of complexes, arrays and array layouts passed to the Python module, built with sanitizers, vs definitions',
                bounds='all complexes on <=3 vertices with all monotone weights over 3 values, all complexes on 4 vertices with 4 weightings (thorough: all monotone weights over 2 values), points of three grids with 5 scales and 4 dimensions in 8 layouts, all matrices up to 2x3 over 3 values in 8 layouts and 5 types with 5 combinations of options, all multisets of <=3 points, all pairs of diagrams with <=2 points, all weighted graphs on 3 vertices',
                oracle='rank-based pairing, relabelling of components, enumeration of matchings and cliques'),
    "P52": dict(src='py_rips.py',
                technique='exhaustive enumeration of distance matrices and layouts passed to the Python module, built with sanitizers, vs definitions',
                bounds='all matrices over 3 values (4 for <=3 points) on <=4 points in 8 layouts, all 720 orders of distances of 4 points, all matrices over 2 values on 5 points; thorough: all 14400 orders of 5 points with a pentagon first',
                oracle='rank-based pairing of the explicit Vietoris-Rips filtration; minimum spanning trees by greedy relabelling'),
    "P53": dict(src=[dict(file='tool_diagrams.py', tools=['persistence_diagram_statistics', 'persistence_diagram_entropies', 'persistence_indicator_function', 'make_signature', 'topological_distance'])],
                technique='exhaustive enumeration of input files and options of the real tools, built with sanitizers, vs definitions',
                bounds='all multisets of <=3 (thorough 4) of 5-7 points as files, all pairs of diagrams with <=2 points (bottleneck and indicator functions: <=1) and powers 1-3, all lists of <=3 of 5 data sets with different dimensions, all lists of <=3 of 7 file names, 1-12 (thorough 24) data sets given as arguments, lists or JSON files, all combinations of cleaning, duplicate removal, 3 factors and 3 kernels',
                oracle='definitions of the statistics, enumeration of matchings'),
    "P54": dict(src=[dict(file='tool_graphs.py', tools=['betti_numbers', 'graph_analysis', 'relevant_edges', 'clique_communities_to_json', 'clique_persistence_diagram', 'connectivity_matrix_analysis', 'sparse_adjacency_matrices'])],
                technique='exhaustive enumeration of input graphs and options of the real tools, built with sanitizers, vs definitions',
                bounds='all weighted graphs on <=3 vertices with 3-4 weights and on 4 vertices with 2-3 weights, all orders of distinct weights of the complete graph on 4 vertices with the smallest weight at one of two edges (thorough: all), pairs of 11 graphs on <=3 and 7 on 4 vertices (thorough: 38 and all pairs); edge lists, GML files with and without labels, adjacency matrices; 10 combinations of options per tool; substitutes 1, 2 and 5 for infinity; graphs with negative weights',
                oracle='rank-based pairing, relabelling of components, enumeration of cliques'),
    "P55": dict(src=[dict(file='tool_functions.py', tools=['function_analysis', 'spectral_analysis', 'interlevel_set_persistence_hierarchy', 'piecewise_linear_function_smoothing', 'persistence_indicator_function_confidence_sets', 'persistence_indicator_function_glyph'])],
                technique='exhaustive enumeration of input functions and options of the real tools, built with sanitizers, vs definitions',
                bounds='all functions with <=5 values from three (thorough: 6), all orders of two sets of five values; all sub-/superlevel, normalisation, condensing and input modes; all lists of few small diagrams for confidence bands and glyphs; parents in the hierarchy for all orders of distinct values',
                oracle='elder rule by relabelling, direct evaluation of the definitions, all resamplings'),
    "P56": dict(src=[dict(file='tool_clouds.py', tools=['point_cloud_data_descriptors', 'local_dimensionality', 'mean_curvature', 'multi_scale_skeleton', 'rips_distributions', 'process_image_patches', 'cover_tree', 'persistent_spines'], plain=['mean_curvature', 'local_dimensionality'])],
                technique='exhaustive enumeration of point clouds and options of the real tools, built with sanitizers, vs definitions',
                bounds='all sets of 1-4 points of the 3x3 grid and of 5 points of a line, a third (thorough: all) of the sets of corners of a box, a fifth (thorough: all) of the sets of 5 grid points; all subsets of 5-6 of 12 points of a circle (quick: every fourth); windows over all patches with 2x2 pixels of 4 values; 11 descriptor settings with one (thorough: all) of the flag combinations, all k <= K <= number of points',
                oracle='brute-force distances, rank-based pairing, matrix exponential by Taylor series, Jacobi rotations, smallest enclosing balls'),
    "P57": dict(src=[dict(file='tool_networks.py', tools=['ephemeral', 'stratified_graph_analysis', 'wicked_triangulations', 'persistent_intersection_homology'])],
                technique='exhaustive enumeration of matrices, graphs, triangulations and options of the real tools, built with sanitizers, vs definitions',
                bounds='all matrices on 2-3 vertices with 3-4 entries (zero and missing ones included), a third on 4 vertices and a quarter of the orders of 6 weights (thorough: all), octahedra; all weights of small bipartite graphs with 1/14 (thorough: all) of the 108 option combinations; all complexes on <=4 vertices and three surfaces with all perversities; all sets of singular points of all sets of 3-5 of 6 points, half (thorough: all) of 3 radii; substitutes 2 and -3 for infinity; wheels with 4, 5 and 8 spokes next to a simplex, all sets (8 spokes: up to 2, thorough 5) of singular points',
                oracle='rank-based pairing, relabelling of components, ranks of maps between allowable chains'),
}
