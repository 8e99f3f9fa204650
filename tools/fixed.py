#!/usr/bin/env python3
"""Rewrites the "fixed:" lines of known-findings.txt from the fix: commits in /repo."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [  # (start of the subject, property)
 ("include the highest dimension in Euler", "P02"), ("make persistentEulerCharacteristic", "P02"), ("handle unpaired creators when creating diagrams of 1D", "P02"),
 ("report all vertices of a simplicial", "P05"), ("report degrees of isolated", "P06"), ("ignore indented comment lines when loading boundary", "P07"), ("make the heap representation", "P07"),
 ("propagate negative weights in Rips", "P10"), ("report all distances of a FLANN", "P11"), ("handle searches for more neighbours", "P12"), ("use Hamming distance", "P12"),
 ("select the requested number of different max-min", "P14"), ("support queries for empty cover", "P17"), ("avoid integer overflow for unreachable", "P24"), ("pass dimension of new simplices", "P19"),
 ("connect mesh boundaries", "P22"), ("report all faces of a mesh", "P22"), ("use all edges for counting connected", "P22"), ("report all faces in the star", "P22"), ("assign unused vertex IDs", "P22"),
 ("return zero for invalid dimensions", "P23"), ("ensure that Goresky", "P23"), ("support empty strata", "P23"),
 ("evaluate heat kernel", "P25"), ("calculate determinant of heat", "P25"), ("avoid integer division in pseudo", "P25"), ("do not consider a simplex to be its own", "P25"), ("support negative curvature", "P25"), ("calculate weighted curvature", "P25"),
 ("do not remove edges twice", "P27"), ("calculate Bottleneck distance if the second", "P27"), ("keep parallel edges", "P27"), ("support empty persistence diagrams for the Bottleneck", "P27"),
 ("calculate persistent entropy for points", "P30"), ("handle degenerate extents", "P30"), ("do not read past the last point when calculating an env", "P31"), ("do not add interval before the first", "P32"),
 ("do not recurse endlessly", "P33"), ("use largest absolute value of overlapping", "P33"), ("check for the last interval", "P33"), ("do not create invalid intervals", "P33"),
 ("make scalar operators of piecewise", "P34"), ("permit dividing a piecewise", "P34"), ("calculate absolute value of segments", "P34"), ("integrate segments that", "P34"), ("integrate almost horizontal", "P34"),
 ("use both diagrams for the kernel", "P35"), ("use squared pseudo-metric", "P35"), ("do not return NaN for the multi-scale", "P35"), ("calculate means of persistence diagrams of non-zero", "P36"), ("report invalid JSON", "P37"),
 ("do not access elements of an empty range in reversible", "P42"), ("report copies of an empty symmetric", "P43"), ("scale the compensation term", "P44"), ("make the Euclidean norm usable", "P44"), ("use correct sign for the centre", "P44"), ("add missing include for quantiles", "P44"),
 ("read negative numbers and exponents in GML files", "P38"), ("do not truncate GML attribute names that contain digits", "P38"), ("permit empty lines and comments at the beginning of GML files", "P38"), ("report unmatched closing brackets in GML files", "P38"), ("report edges of unknown nodes in GML files", "P38"), ("assign different vertices to different node IDs in GML files", "P38"), ("use order of vertices for indices of GML nodes", "P38"), ("skip empty lines in Pajek files", "P38"), ("read negative weights and exponents in Pajek files", "P38"), ("do not mistake unknown sections of Pajek files for edges", "P38"), ("create vertices of Pajek files without edges", "P38"), ("do not reuse node labels of previous edge lists", "P38"), ("report missing and invalid GraphML files", "P38"), ("support empty data elements in GraphML files", "P38"), ("support nodes without weights in GraphML files when assigning edge weights", "P38"), ("do not report labels of a file that has been read before", "P38"), ("use functor when reading GML and HDF5 files", "P38"), ("assign labels of Pajek files to their vertices", "P38"),
 ("skip comments when reading adjacency matrices", "P39"), ("ignore NaNs when calculating extremal weights of adjacency matrices", "P39"), ("do not convert matrix indices to vertices when reading adjacency matrices", "P39"), ("skip comments and empty lines when reading bipartite adjacency matrices", "P39"), ("skip comments and empty lines when reading matrices", "P39"), ("support empty matrices", "P39"), ("permit reading sparse adjacency matrices without graph labels", "P39"), ("keep isolated vertices when reading sparse adjacency matrices", "P39"), ("report nodes of sparse adjacency matrices that do not belong to any graph", "P39"), ("report missing attributes of sparse adjacency matrices", "P39"), ("do not report node labels of previous sparse adjacency matrices", "P39"), ("load point clouds without newline at the end of the file", "P41"), ("add missing include for point clouds", "P41"), ("compare points of different dimensions", "P41"), ("initialize property descriptors of PLY files", "P40"), ("permit PLY files without faces", "P40"), ("report faces of unknown vertices in PLY files", "P40"), ("permit arbitrary names for scalars in VTK files", "P40"), ("ignore empty lines and trailing spaces in VTK files", "P40"), ("report VTK files with an unexpected number of values", "P40"), ("support unsigned types for points of VTK files", "P40"), ("do not report scalars of previous VTK files", "P40"), ("do not create empty complexes for lines without triangulations", "P40"), ("do not loop endlessly for invalid triangulations", "P40"), ("do not report values of previous spectra", "P40"), ("normalize spectra with a single value", "P40"), ("use correct width and height for HDF5 data sets", "P40"), ("convert byte order when reading HDF5 data sets", "P40"), ("handle a single point when calculating eccentricities", "P45"), ("permit the distance to a measure for containers", "P45"), ("include the summation class used by the mean shift", "P45"), ("permit including the correlation dimension in several", "P45"), ("normalize principal components by the number of samples", "P45"), ("use the full neighbour range when estimating", "P45"), ("return a local dimensionality estimate for every point", "P45"), ("select the smallest eigenvalue when fitting spheres", "P47"),
 ("make the dimension of persistence diagrams readable", "P50"), ("return the complex when loading with a functor", "P51"), ("register distances and kernels in the Python", "P51"), ("respect the strides of arrays", "P51"), ("raise an exception for invalid simplex indices", "P50"), ("report the merging edges in vietoris", "P52"), ("report the largest edge of destroying", "P52"), ("do not modify step functions when taking", "P50"), ("use the values of functors when loading from Python", "P51"), ("keep simplices alive while their boundary", "P50"),
 ("read the content of binary PLY", "P40"), ("do not block when checking", "P46"), ("format numbers with a maximum", "P46"), ("keep equal coordinates equal", "P30"),
 ("keep valid points when filtering invalid", "P53"), ("take the root of Wasserstein", "P53"), ("let the Hausdorff distance replace", "P53"), ("calculate signatures of empty", "P53"), ("use the weights of connectivity matrices", "P54"), ("separate the diagrams in the output", "P54"), ("use the expanded complexes in sparse", "P54"), ("sort by descending degrees", "P54"), ("identify the vertices of labelled graphs", "P54"), ("normalise degrees of graphs without", "P54"), ("recognize the short option for bootstrap", "P55"), ("evaluate indicator functions in every log", "P55"), ("require an argument for the spine", "P56"), ("do not truncate the norm of image", "P56"), ("only normalize the remaining image", "P56"), ("keep at least one image patch", "P56"), ("write valid JSON for point clouds with a single", "P56"), ("use a descending order for the reverse filtration in eph", "P57"), ("use a strict weak ordering for absolute", "P57"), ("permit specifying the default normalization", "P57"), ("normalize diagrams of absolute values", "P57"), ("only use edges between singular", "P57"), ("identify diagrams by their dimension", "P57"),
]
f = V + "/known-findings.txt"
lines = [l for l in open(f).read().splitlines() if not l.startswith("fixed:")]
for l in subprocess.run(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, universal_newlines=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    s = s[5:]
    p = [x for x in P if s.startswith(x[0])]
    if len(p) != 1: print("no property for:", s); continue
    lines.append("fixed: property=%s %s %s" % (p[0][1], h, s))
open(f, "w").write("\n".join(lines).strip() + "\n")
