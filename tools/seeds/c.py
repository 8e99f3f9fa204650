S("pairing-limit", "P01",
  [(I + "persistentHomology/Calculation.hh", "      if( max > numColumns || u < max )\n", "      if( max > numColumns || u <= max )\n")],
  SC + r'''
#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/topology/Conversions.hh>
int main()
{
  SimplicialComplex K = { {0}, {1}, {2}, Simplex( {0,1} ), Simplex( {1,2} ) };
  auto M = aleph::topology::makeBoundaryMatrix( K );
  auto p = aleph::calculatePersistencePairing( M, false, 2 );
  for( auto&& q : p )
    if( q.first >= 2 ) { std::cout << "creator " << q.first << "\n"; return 1; }
  return 0;
}
''',
  "a pairing with an upper bound for the index, and a pair whose creator is the first simplex that is not allowed",
  "The pairing contains a simplex whose index is the excluded maximum.")

S("dowker-threshold", "P15",
  [(I + "geometry/DowkerComplex.hh", "      if( D[i][j] <= R )\n", "      if( D[i][j] < R )\n")],
  r'''
#include <aleph/geometry/DowkerComplex.hh>
#include <iostream>
int main()
{
  std::vector< std::vector<double> > W = { {0,1,0}, {0,0,1}, {1,0,0} };
  auto p = aleph::geometry::admissiblePairs( W, 2.0 );
  std::cout << p.size() << "\n";
  return p.size() == 9 ? 0 : 1;
}
''',
  "a pair of vertices whose distance is the threshold",
  "Pairs at exactly the threshold are not admissible any more.")

S("cover-tree-distance", "P17",
  [(I + "geometry/CoverTree.hh", """          // Since the root of the tree changed, we also have to update
          // the distance calculation.
          d = Metric()( _point, p );
""", """          // The distance calculation is still the one of the old root.
""")],
  r'''
#include <aleph/geometry/CoverTree.hh>
#include <cmath>
#include <iostream>
#include <vector>
struct Metric { double operator()( double a, double b ) const { return std::abs( a - b ); } };
int main()
{
  std::cerr.setstate( std::ios::failbit );
  for( int a = 0; a < 12; a++ )
    for( int b = 0; b < 12; b++ )
      for( int c = 0; c < 12; c++ )
        for( int d = 0; d < 12; d++ )
        {
          if( a == b || a == c || a == d || b == c || b == d || c == d ) continue;
          aleph::geometry::CoverTree<double, Metric> T;
          for( double x : { a, b, c, d } ) T.insert( x );
          if( !T.isValid() ) { std::cout << a << " " << b << " " << c << " " << d << "\n"; return 1; }
        }
  return 0;
}
''',
  "a point that is far from the tree while the leaf that becomes the new root is farther away than the old one",
  "The root does not cover its child any more.")

S("spine-refill", "P21",
  [(I + "topology/Spine.hh", "    if( admissible.empty() )\n      admissible = getPrincipalFaces( cofaces, L );\n", "    if( admissible.empty() && L.dimension() > 1 )\n      admissible = getPrincipalFaces( cofaces, L );\n")],
  SC + r'''
#include <aleph/topology/Spine.hh>
int main()
{
  // Every order of vertices of a path, so that the collapse starts everywhere
  for( unsigned n = 2; n < 12; n++ )
  {
    std::vector<Simplex> s;
    for( unsigned i = 0; i < n; i++ ) s.push_back( Simplex( i ) );
    for( unsigned i = 0; i + 1 < n; i++ ) s.push_back( Simplex( { i, i+1 } ) );
    SimplicialComplex K( s.begin(), s.end() );
    auto L = aleph::topology::spine( K );
    std::cout << n << ": " << L.size() << "\n";
    if( L.size() != 1 ) return 1;
  }
  return 0;
}
''',
  "a graph in which the collapse of an edge makes another edge free that is not among its faces",
  "Trees are not collapsed to a point.")

S("shortest-path-last", "P24",
  [(I + "topology/FloydWarshall.hh", "  for( VertexType k = VertexType(0); k < VertexType(n); k++ )\n", "  for( VertexType k = VertexType(0); k + 1 < VertexType(n); k++ )\n")],
  SC + r'''
#include <aleph/topology/FloydWarshall.hh>
int main()
{
  SimplicialComplex K = { {0}, {1}, {2}, Simplex( {0,2}, 1.0 ), Simplex( {1,2}, 1.0 ) };
  auto M = aleph::topology::floydWarshall( K );
  std::cout << M(0,1) << "\n";
  return M(0,1) == 2.0 ? 0 : 1;
}
''',
  "a shortest path whose only intermediate vertex is the last one of the complex",
  "Shortest paths via the last vertex are not found.")

S("heat-sampling", "P25",
  [(I + "geometry/HeatKernel.hh", "    auto offset = ( std::log( t_max ) - std::log( t_min ) ) / ( n - 1 );\n", "    auto offset = ( std::log( t_max ) - std::log( t_min ) ) / n;\n")],
  SC + r'''
#include <aleph/geometry/HeatKernel.hh>
int main()
{
  SimplicialComplex K = { {0}, {1}, {2}, Simplex( {0,1}, 1.0 ), Simplex( {1,2}, 1.0 ) };
  aleph::geometry::HeatKernel hk( K );
  auto t = hk.logarithmicSamplingInterval( 10 );
  std::cout << t.back() << "\n";
  return std::abs( t.back() - 4 * std::log( 10 ) ) < 1e-6 ? 0 : 1;
}
''',
  "a sampling interval of the heat kernel whose end matters",
  "The sampling interval does not reach its upper bound.")

S("hausdorff-directed", "P27",
  [(I + "persistenceDiagrams/distances/Hausdorff.hh", "  return std::max( supremum1, supremum2 );\n", "  return D1.size() < D2.size() ? supremum2 : supremum1;\n")],
  PD + r'''
#include <aleph/persistenceDiagrams/distances/Hausdorff.hh>
int main()
{
  Diagram A, B;
  A.add( 0, 1 ); A.add( 0, 1 );
  B.add( 0, 1 ); B.add( 0, 9 );
  return near( aleph::distances::hausdorffDistance( A, B ), 8 ) ? 0 : 1;
}
''',
  "diagrams of the same size where only the second one has a point that is far from the other diagram",
  "The distance is only that of the points of one diagram.")

S("assignment-tolerance", "P29",
  [(I + "persistenceDiagrams/distances/detail/Munkres.hh", "            if( _matrix( row, col ) == T( 0 ) )\n", "            if( _matrix( row, col ) <= T( 1e-6 ) )\n")],
  r'''
#include <aleph/persistenceDiagrams/distances/detail/Munkres.hh>
#include <aleph/persistenceDiagrams/distances/detail/Matrix.hh>
#include <iostream>
int main()
{
  using namespace aleph::distances::detail;
  double s = 1.0 / ( 1 << 24 );
  for( unsigned code = 0; code < 19683; code++ )
  {
    Matrix<double> M( 3 );
    unsigned c = code;
    for( unsigned i = 0; i < 3; i++ ) for( unsigned j = 0; j < 3; j++ ) { M(i,j) = ( 1 + c % 3 ) * s; c /= 3; }
    auto C = M;
    Munkres<double> solver( M );
    auto r = solver();
    double cost = 0, best = 1;
    for( unsigned i = 0; i < 3; i++ ) for( unsigned j = 0; j < 3; j++ ) if( r(i,j) == 0 ) cost += C(i,j);
    for( unsigned i = 0; i < 3; i++ ) for( unsigned j = 0; j < 3; j++ ) if( i != j ) best = std::min( best, C(0,i) + C(1,j) + C(2,3-i-j) );
    if( cost != best ) { std::cout << cost / s << " instead of " << best / s << "\n"; return 1; }
  }
  return 0;
}
''',
  "costs whose differences are below the tolerance",
  "An assignment that is not optimal is returned if the costs are small.")

S("mean-projection", "P36",
  [(I + "persistenceDiagrams/Mean.hh", "        y1 = ( point.x() + point.y() ) / 2;\n", "        y1 = point.y() - ( point.x() / 2 );\n")],
  PD + r'''
#include <aleph/persistenceDiagrams/Mean.hh>
int main()
{
  Diagram A, B;
  A.add( 4, 8 );
  B.add( 4, 8 ); B.add( 100, 120 );
  std::vector<Diagram> D = { A, B };
  for( unsigned i = 0; i < 40; i++ )
  {
    auto M = aleph::mean( D.begin(), D.end() );
    for( auto&& p : M )
    {
      std::cout << p.x() << " " << p.y() << "\n";
      bool a = std::abs( p.x() - 105 ) < 1e-6 && std::abs( p.y() - 115 ) < 1e-6;
      bool b = std::abs( p.x() - 4   ) < 1e-6 && std::abs( p.y() - 8   ) < 1e-6;
      if( !a && !b ) return 1;
    }
  }
  return 0;
}
''',
  "diagrams of different size, so that a point of the mean is matched with the diagonal",
  "The projection to the diagonal is wrong unless the creation value is zero.")

S("vtk-rows", "P40",
  [(I + "topology/io/VTK.hh", "   return z * nx*ny + x % nx + y * nx;\n", "   return z * nx*ny + x % nx + y * ny;\n")],
  SC + r'''
#include <aleph/topology/io/VTK.hh>
int main()
{
  {
    std::ofstream f( "g.vtk" );
    f << "# vtk DataFile Version 2.0\nx\nASCII\nDATASET STRUCTURED_GRID\nDIMENSIONS 2 4 1\nPOINTS 8 double\n";
    for( int i = 0; i < 8; i++ ) f << "0 0 0\n";
    f << "POINT_DATA 8\nSCALARS s double 1\nLOOKUP_TABLE default\n";
    for( int i = 0; i < 8; i++ ) f << i << "\n";
  }
  SimplicialComplex K;
  aleph::topology::io::VTKStructuredGridReader reader;
  reader( "g.vtk", K );
  std::cout << K.size() << "\n";
  return K.size() == 18 && K.contains( Simplex( {6,7} ) ) && K.contains( Simplex( {0,2} ) ) ? 0 : 1;
}
''',
  "a grid whose dimensions are different",
  "Grid points of different rows share an index, so that edges are missing.")

S("cloud-equality", "P41",
  [(I + "containers/PointCloud.hh", "    return    _n == other._n\n           && _d == other._d\n", "    return    _n * _d == other._n * other._d\n")],
  PC + r'''
int main()
{
  auto a = cloud( { {1,2,3}, {4,5,6} } ), b = cloud( { {1,2}, {3,4}, {5,6} } );
  std::cout << ( a == b ) << "\n";
  return a == b ? 1 : 0;
}
''',
  "two point clouds with the same coordinates but another dimension",
  "Point clouds of different dimension are equal.")

S("sparse-index-map", "P43",
  [(I + "math/SparseMatrix.hh", "    if( _indexMap.size() != this->numColumns() )\n", "    if( _indexMap.size() < this->numColumns() )\n")],
  r'''
#include <aleph/math/SparseMatrix.hh>
#include <iostream>
#include <vector>
int main()
{
  aleph::math::SparseBinaryMatrix<unsigned> M( 2 );
  std::vector<unsigned> i = { 4, 5, 6 };
  try { M.setIndices( i.begin(), i.end() ); } catch( std::length_error& ) { return 0; }
  std::cout << "accepted\n";
  return 1;
}
''',
  "more indices than columns",
  "Surplus indices are accepted.")

S("covariance-size", "P44",
  [(I + "math/Statistics.hh", "  return sum / static_cast<double>( std::distance( begin1, end1 ) - 1 );\n", "  return sum / static_cast<double>( std::max<long>( std::distance( begin1, end1 ) - 1, 2 ) );\n")],
  r'''
#include <algorithm>
#include <aleph/math/Statistics.hh>
#include <iostream>
#include <vector>
int main()
{
  std::vector<double> x = { 0, 2 }, y = { 1, 5 };
  auto c = aleph::math::sampleCovariance( x.begin(), x.end(), y.begin(), y.end() );
  std::cout << c << "\n";
  return c == 4 ? 0 : 1;
}
''',
  "two samples",
  "The covariance of two pairs of values is halved.")

S("negative-infinity", "P46",
  [(I + "utilities/String.hh", "    else if ( string == \"-inf\" || string == \"-infinity\" )\n", "    else if ( string == \"-inf\" )\n")],
  r'''
#include <aleph/utilities/String.hh>
#include <iostream>
int main()
{
  bool ok = false;
  double x = aleph::utilities::convert<double>( std::string( "-Infinity" ), ok );
  std::cout << x << "\n";
  return ok && x < 0 ? 0 : 1;
}
''',
  "the long name of negative infinity",
  "The value cannot be converted any more.")

S("sphere-poles", "P48",
  [(I + "geometry/SphereSampling.hh", "    T phi   = std::acos( 1- 2*v );\n", "    T phi   = T( M_PI*v );\n")],
  PC + r'''
#include <aleph/geometry/SphereSampling.hh>
int main()
{
  auto a = aleph::geometry::sphereSampling<double>( 200000 );
  double n = 0;
  for( auto&& p : a ) n += p.second < M_PI / 3;
  std::cout << n / a.size() << "\n";
  return std::abs( n / a.size() - 0.25 ) < 0.02 ? 0 : 1;
}
''',
  "the distribution of the samples",
  "Samples are concentrated at the poles of the sphere.")

S("tikz-triangle", "P49",
  [(I + "topology/io/TikZ.hh", "        auto w = s[2];\n", "        auto w = *s.begin();\n")],
  SC + r'''
#include <aleph/topology/io/TikZ.hh>
#include <sstream>
int main()
{
  SimplicialComplex K = { {0}, {1}, {2}, Simplex( {0,1} ), Simplex( {0,2} ), Simplex( {1,2} ), Simplex( {0,1,2} ) };
  std::vector< std::vector<double> > c = { {0,0}, {1,0}, {0,1} };
  aleph::topology::io::TikZ tikz;
  tikz.showTriangles( true );
  std::ostringstream s;
  tikz( s, K, c );
  auto t = s.str();
  t = t.substr( t.find( "\\fill[" ) );
  t = t.substr( 0, t.find( '\n' ) );
  std::cout << t << "\n";
  for( std::string v : { "(0)", "(1)", "(2)" } ) if( t.find( v ) == std::string::npos ) return 1;
  return 0;
}
''',
  "a picture with triangles",
  "Triangles degenerate to an edge.")

S("python-unpaired", "P51",
  [("bindings/python/aleph.cc", "Diagram<Simplex, Traits>( K );\n      auto&& pd   = std::get<0>( tuple );\n\n      if( std::isfinite( unpairedData ) )\n      {\n        std::transform( pd.begin(), pd.end(), pd.begin(),\n          [&unpairedData] ( const Point& p )\n          {\n            if( p.isUnpaired() )\n            {\n              return Point( p.x(), unpairedData );\n", "Diagram<Simplex, Traits>( K );\n      auto&& pd   = std::get<0>( tuple );\n\n      if( std::isfinite( unpairedData ) )\n      {\n        std::transform( pd.begin(), pd.end(), pd.begin(),\n          [&unpairedData] ( const Point& p )\n          {\n            if( p.isUnpaired() )\n            {\n              return Point( p.x(), std::max( p.x(), unpairedData ) );\n")],
  r'''
import aleph, sys
K = aleph.SimplicialComplex([([0], 4.0), ([1], 4.0), ([0, 1], 5.0)])
D, p = aleph.calculateZeroDimensionalPersistenceDiagramAndPairing(K, 1.0)
y = sorted(q.y for q in D)
print(y)
sys.exit(0 if y == [1.0, 5.0] else 1)
''',
  "a value for unpaired points that is smaller than their creation value",
  "The value for unpaired points is not the given one.", python=True)

S("python-pairing-array", "P51",
  [("bindings/python/aleph.cc", "          buffer[2*index+1] = it->second;\n", "          buffer[2*index+1] = static_cast<int>( it->second );\n")],
  r'''
import aleph, numpy, sys
K = aleph.SimplicialComplex([[0], [1], [0, 1]])
D, p = aleph.calculateZeroDimensionalPersistenceDiagramAndPairing(K)
a = numpy.array(p)
b = [list(q) for q in p]
print(a, b)
sys.exit(0 if a.tolist() == b else 1)
''',
  "a pairing with an unpaired index",
  "The array contains -1 instead of the index that marks unpaired simplices.", python=True)

S("graph-infinity", "P54",
  [("src/tools/graph_analysis.cc", "        if( point.isUnpaired() && infinity > DataType() )\n", "        if( point.isUnpaired() && infinity > DataType(1) )\n")],
  r'''
printf '0 1\n1 2\n' > G.txt
"$tool" --infinity=1 --output=. G.txt
cat G_d0.txt
! grep -q 4294967295 G_d0.txt
''',
  "a factor for unpaired points that is at most one",
  "Unpaired points are not replaced.", tool="graph_analysis")

S("function-normalization", "P55",
  [("src/tools/function_analysis.cc", "            (p.y() - minmax.first ) / range\n", "            p.y() / range\n")],
  r'''
printf '2 4 3 6\n' > f.txt
"$tool" -n f.txt | tee out.txt
grep -q '^0[[:space:]]*1$' out.txt
''',
  "a function whose minimum is not zero",
  "Normalised destruction values are wrong.", tool="function_analysis")

S("indicator-direction", "P32",
  [(I + "persistenceDiagrams/PersistenceIndicatorFunction.hh", "      if( isInverted )\n        return true;\n", "      return isInverted;\n")],
  PD + r'''
#include <aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh>
int main()
{
  Diagram D;
  D.add( 5, 5 ); D.add( 4, 0 );
  auto f = aleph::persistenceIndicatorFunction( D );
  return near( f( 2 ), 1 ) ? 0 : 1;
}
''',
  "a diagram of a superlevel set filtration whose first point lies on the diagonal",
  "The intervals are treated as if they belonged to a sublevel set filtration.")

S("combination-count", "P42",
  [(I + "math/Combinations.hh", "        UInt t = n / (k / g);\n        if (r > std::numeric_limits<UInt>::max() / t)\n            throw std::overflow_error(\"overflow in count_each_combination\");\n",
                                "        UInt t = n / (k / g);\n        if (r > std::numeric_limits<UInt>::max() / n)\n            throw std::overflow_error(\"overflow in count_each_combination\");\n")],
  r'''
#include <aleph/math/Combinations.hh>
#include <iostream>
int main()
{
  unsigned C[40][40] = {};
  for( unsigned n = 0; n < 34; n++ ) for( unsigned k = 0; k <= n; k++ ) C[n][k] = k == 0 || k == n ? 1 : C[n-1][k-1] + C[n-1][k];
  for( unsigned n = 0; n < 34; n++ ) for( unsigned k = 0; k <= n; k++ )
  {
    if( C[n][k] > 65535 ) continue;
    try
    {
      if( aleph::math::count_each_combination<unsigned short>( k, n - k ) != C[n][k] ) return 1;
    }
    catch( std::overflow_error& ) { std::cout << n << " " << k << "\n"; return 1; }
  }
  return 0;
}
''',
  "a number of combinations close to the largest value of the type",
  "An overflow is reported although the number of combinations can be represented.")

S("union-find-get", "P08",
  [(I + "topology/UnionFind.hh", "      if( this->find( pair.first ) == parent )\n", "      if( pair.second == parent )\n")],
  r'''
#include <aleph/topology/UnionFind.hh>
#include <iostream>
#include <iterator>
#include <vector>
int main()
{
  std::vector<unsigned> v = { 0, 1, 2, 3 }, r;
  aleph::topology::UnionFind<unsigned> uf( v.begin(), v.end() );
  uf.merge( 0, 1 ); uf.merge( 1, 2 ); uf.merge( 2, 3 );
  uf.get( 3, std::back_inserter( r ) );
  std::cout << r.size() << "\n";
  return r.size() == 4 ? 0 : 1;
}
''',
  "a set that has been merged repeatedly without a query in between",
  "Some vertices of a set are not reported.")

S("cech-boundary", "P13",
  [(I + "geometry/CechComplex.hh", "        if( mb.squared_radius() <= R )\n", "        if( mb.squared_radius() < R )\n")],
  PC + r'''
#include <aleph/geometry/CechComplex.hh>
int main()
{
  auto K = aleph::geometry::buildCechComplex( cloud( { {0,0}, {4,0} } ), 2.0 );
  std::cout << K.size() << "\n";
  return K.size() == 3 ? 0 : 1;
}
''',
  "points whose enclosing ball has exactly the given radius",
  "Simplices at the boundary are missing.")

S("perversity-decrease", "P23",
  [(I + "persistentHomology/PhiPersistence.hh", "      if( _values[k] != _values[k-1] && _values[k] != _values[k-1] + 1 )\n", "      if( _values[k] > _values[k-1] + 1 )\n")],
  SC + r'''
#include <aleph/persistentHomology/PhiPersistence.hh>
int main()
{
  aleph::PerversityGM p( { 0, 1, 0 } );
  std::cout << p(2) << p(3) << p(4) << "\n";
  return p(4) == 2 ? 0 : 1;
}
''',
  "a perversity whose values decrease",
  "Perversities that violate the growth condition are accepted.")

S("bipartite-minimum", "P39",
  [(I + "topology/io/BipartiteAdjacencyMatrix.hh", "              if( std::abs( w ) < std::abs( minWeight[v] ) )\n", "              if( std::abs( w ) < minWeight[v] )\n")],
  SC + r'''
#include <sstream>
#include <aleph/topology/io/BipartiteAdjacencyMatrix.hh>
int main()
{
  std::istringstream in( "-3 1\n" );
  SimplicialComplex K;
  aleph::topology::io::BipartiteAdjacencyMatrixReader reader;
  reader.setAssignMinimumAbsoluteVertexWeight();
  reader( in, K );
  for( auto&& s : K ) if( s == Simplex( 0 ) ) { std::cout << s.data() << "\n"; return s.data() == 1 ? 0 : 1; }
  return 1;
}
''',
  "a row that starts with a negative weight and contains a weight whose absolute value is smaller",
  "The weight of a vertex is not the one with the smallest absolute value.")

S("sphere-weights", "P47",
  [(I + "geometry/TangentSpace.hh", "  return x < 1 ? std::pow( 1 - x*x, T(4) ) : T();\n", "  return x < 1 ? std::pow( 1 - x, T(4) ) : T();\n")],
  PC + r'''
#include <aleph/geometry/TangentSpace.hh>
int main()
{
  std::vector<double> x = { 0.0, 0.25, 0.5, 0.75 };
  for( double v : x )
    if( std::abs( aleph::geometry::detail::phi( v ) - std::pow( 1 - v*v, 4 ) ) > 1e-12 ) return 1;
  return 0;
}
''',
  "points that do not lie exactly on a sphere",
  "Neighbours are weighted differently.")

S("statistics-dimension", "P53",
  [("src/tools/persistence_diagram_statistics.cc", "(.*)_[dk]([[:digit:]]+)", "(.*)_[dk]([[:digit:]])")],
  r'''
printf '0 4\n' > X_d12.txt
"$tool" X_d12.txt | tail -1
"$tool" X_d12.txt | tail -1 | grep -q ",X,12,1,2,16,"
''',
  "a file name with a dimension of two digits",
  "The dimension and the name are not recognized.", tool="persistence_diagram_statistics")

S("descriptor-normalization", "P56",
  [("src/tools/point_cloud_data_descriptors.cc", "    value = (value - min) / range;\n", "    value = value / max;\n")],
  r'''
printf '0 0\n1 0\n5 0\n' > P.txt
"$tool" -d eccentricity -p 1 -n -e 10 P.txt | tee out.txt
"$tool" -d eccentricity -p 1 -n -e 10 P.txt | tr -d ' \n' | grep -q '\["\?0"\?,'
''',
  "descriptor values whose minimum is not zero",
  "Normalized values do not start at zero.", tool="point_cloud_data_descriptors")

S("diagram-euler", "P02",
  [(I + "persistentHomology/EulerCharacteristic.hh", "  auto D = betti.rbegin()->first;\n", "  auto D = betti.size() - 1;\n")],
  PD + r'''
#include <aleph/persistentHomology/EulerCharacteristic.hh>
int main()
{
  std::vector<Diagram> Ds( 2 );
  Ds[0].setDimension( 0 ); Ds[0].add( 0 );
  Ds[1].setDimension( 2 ); Ds[1].add( 1 );
  auto chi = aleph::eulerCharacteristic( Ds.begin(), Ds.end() );
  std::cout << chi << "\n";
  return chi == 2 ? 0 : 1;
}
''',
  "a dimension without a diagram below one that has a diagram",
  "The Betti numbers of the highest dimensions are ignored.")

S("kernel-weights", "P35",
  [(I + "persistenceDiagrams/kernels/KernelEmbedding.hh", "      result += w(p) * w(q) * k(p,q);\n", "      result += w(p) * w(p) * k(p,q);\n")],
  PD + r'''
#include <aleph/persistenceDiagrams/kernels/KernelEmbedding.hh>
int main()
{
  using namespace aleph;
  Diagram D, E;
  D.add( 0, 1 ); E.add( 0, 3 );
  detail::DefaultWeightFunction w( 1, 1 );
  detail::DefaultKernel k( 1 );
  return near( linearKernel( D, E, w, k ), linearKernel( E, D, w, k ) ) ? 0 : 1;
}
''',
  "diagrams whose points have different weights",
  "The kernel is not symmetric.")

S("python-tuple-weight", "P50",
  [("bindings/python/aleph.cc", "                  simplices.push_back( Simplex( vertices.begin(), vertices.end(), data ) );\n", "                  simplices.push_back( Simplex( vertices.begin(), vertices.end() ) );\n")],
  r'''
import aleph, sys
K = aleph.SimplicialComplex([[0], ([1], 2.0)])
w = [s.weight for s in K]
print(w)
sys.exit(0 if w == [0.0, 2.0] else 1)
''',
  "a complex that is built from pairs of vertices and weights",
  "The weights are lost.", python=True)

S("simplex-bounds", "P04",
  [(I + "topology/Simplex.hh", "    return _vertices.at( index );\n", "    return *( _vertices.begin() + static_cast<typename vertex_container_type::difference_type>( index ) );\n")],
  SC + r'''
#include <stdexcept>
int main()
{
  Simplex s( {0,1,2} );
  try { s[3]; s[4]; }
  catch( std::out_of_range& ) { return 0; }
  return 1;
}
''',
  "an index that is out of range",
  "Invalid indices are not reported.")


S("python-cycle-dimension", "P52",
  [("bindings/python/aleph.cc", "        K = ripsExpander( K, 2 );\n        K = ripsExpander.assignMaximumWeight( K );\n", "        K = ripsExpander( K, 2 );\n        K.recalculateWeights();\n")],
  r'''
import aleph, numpy, sys
M = numpy.array([[0, -1, -2], [-1, 0, -3], [-2, -3, 0]], dtype=float)
print(aleph.vietoris_rips_from_matrix_2d(M))
sys.exit(0 if sorted(aleph.vietoris_rips_from_matrix_2d(M)[0]) == [(0, 2), (1, 2)] else 1)
''',
  "negative entries",
  "The weights of edges are changed.", python=True)

S("perversity-range", "P57",
  [("src/tools/wicked_triangulations.cc", "    for( int k = -1; k <= static_cast<int>( d ); k++ )\n", "    for( int k = -1; k < static_cast<int>( dimension ); k++ )\n")],
  r'''
printf 'manifold_lex_d2_n4_o1_g0_#1=[[1,2,3],[1,2,4],[1,3,4],[2,3,4]]\n' > T.txt
"$tool" T.txt > out.txt
cat out.txt
test "$(grep -c perversity out.txt)" = 6
''',
  "a triangulation of dimension at least two",
  "Perversities with values that are too large are used.", tool="wicked_triangulations")

S("hierarchy-younger", "P03",
  [(I + "persistentHomology/ExtendedPersistenceHierarchy.hh", "        vertexToCriticalPoint[olderComponent] = youngerComponent;\n", "        vertexToCriticalPoint[olderComponent] = vertexToCriticalPoint[youngerComponent];\n")],
  SC + r'''
#include <aleph/persistentHomology/ExtendedPersistenceHierarchy.hh>
#include <aleph/topology/filtrations/Data.hh>
#include <algorithm>
#include <vector>
int main()
{
  std::vector<double> f = { 5, 6, 2, 3, 1, 4, 0 };
  std::vector<Simplex> simplices;
  for( unsigned i = 0; i < 7; i++ ) simplices.push_back( Simplex( i, f[i] ) );
  for( unsigned i = 0; i < 6; i++ ) simplices.push_back( Simplex( {i,i+1}, std::max( f[i], f[i+1] ) ) );
  SimplicialComplex K( simplices.begin(), simplices.end() );
  K.sort( aleph::topology::filtrations::Data<Simplex>() );
  aleph::ExtendedPersistenceHierarchy<Simplex> eph;
  auto edges = eph( K ).second;
  std::sort( edges.begin(), edges.end() );
  for( auto&& e : edges ) std::cout << e.first << " " << e.second << "\n";
  return edges.size() == 3 && edges[1].first == 6 && edges[1].second == 0 ? 0 : 1;
}
''',
  "a component that absorbed another one before it is absorbed itself by a component that absorbs a third one later",
  "A child is attached to the wrong parent.")

S("pairing-find", "P01",
  [(I + "persistentHomology/PersistencePairing.hh", """    return std::find( _pairs.begin(), _pairs.end(),
                      std::make_pair( creator, destroyer ) );
""", """    auto pair = std::make_pair( creator, destroyer );
    auto it   = std::lower_bound( _pairs.begin(), _pairs.end(), pair );

    return it != _pairs.end() && *it == pair ? it : _pairs.end();
""")],
  r'''
#include <aleph/persistentHomology/PersistencePairing.hh>
#include <iostream>
int main()
{
  aleph::PersistencePairing<unsigned> p;
  p.add( 2, 3 ); p.add( 1, 4 ); p.add( 0 );
  for( auto&& q : p )
    if( !p.contains( q.first, q.second ) ) { std::cout << q.first << "," << q.second << " is missing\n"; return 1; }
  return 0;
}
''',
  "a pairing whose pairs are not sorted",
  "Pairs are not found.")

S("indicator-small", "P32",
  [(I + "persistenceDiagrams/PersistenceIndicatorFunction.hh", "    while( i < eventPoints.size() && eventPoints.at(i).value == eventPoint.value );\n", "    while( i < eventPoints.size() && eventPoints.at(i).value - eventPoint.value <= DataType( 1e-8 ) );\n")],
  r'''
#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>
#include <aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh>
#include <cmath>
#include <iostream>
int main()
{
  double s = std::ldexp( 1, -40 );
  aleph::PersistenceDiagram<double> D;
  D.add( s, 3 * s ); D.add( 2 * s, 4 * s );
  auto f = aleph::persistenceIndicatorFunction( D );
  std::cout << f( 2.5 * s ) << "\n";
  return f( 2.5 * s ) == 2 ? 0 : 1;
}
''',
  "a diagram whose coordinates are very close to each other",
  "Intervals are merged, so that the number of active intervals is wrong.")
