I = "include/aleph/"

SC = r'''
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>
#include <cmath>
#include <fstream>
#include <iostream>
#include <vector>
using Simplex           = aleph::topology::Simplex<double, unsigned>;
using SimplicialComplex = aleph::topology::SimplicialComplex<Simplex>;
'''
PD = r'''
#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>
#include <cmath>
#include <fstream>
#include <iostream>
using Diagram = aleph::PersistenceDiagram<double>;
static bool near( double a, double b ) { std::cout << a << " expected " << b << "\n"; return std::abs( a - b ) < 1e-9; }
'''
PC = r'''
#include <aleph/containers/PointCloud.hh>
#include <aleph/geometry/distances/Euclidean.hh>
#include <cmath>
#include <iostream>
#include <vector>
using PointCloud = aleph::containers::PointCloud<double>;
using Distance   = aleph::geometry::distances::Euclidean<double>;
static PointCloud cloud( const std::vector< std::vector<double> >& p )
{
  PointCloud pc( p.size(), p.front().size() );
  for( std::size_t i = 0; i < p.size(); i++ ) pc.set( i, p[i].begin(), p[i].end() );
  return pc;
}
'''

S("mesh-vertex-id", "P22",
  [(I + "topology/Mesh.hh", "    _largestVertexID = std::max( _largestVertexID, v.id );\n", "    _largestVertexID = v.id;\n")],
  r'''
#include <aleph/topology/Mesh.hh>
#include <iostream>
int main()
{
  aleph::topology::Mesh<double> M;
  try
  {
    M.addVertex( 0, 0, 0, 0, 2 );
    M.addVertex( 0, 0, 0, 0, 1 );
    M.addVertex( 0, 0, 0 );
    M.addVertex( 0, 0, 0 );
  }
  catch( ... ) { std::cout << "exception\n"; return 1; }
  std::cout << M.numVertices() << "\n";
  return M.numVertices() == 4 ? 0 : 1;
}
''',
  "vertices with explicit indices that are not added in ascending order, followed by vertices without one",
  "Automatically chosen vertex indices collide with existing ones.")

S("wasserstein-power", "P28",
  [(I + "persistenceDiagrams/distances/Wasserstein.hh",
'''    for( auto&& p2 : D2 )
    {
      DataType d = DataType();

      if( p1 == p2 )
        d = std::pow( detail::orthogonalDistance<Distance>( p1 ), power );
''',
'''    for( auto&& p2 : D2 )
    {
      DataType d = DataType();

      if( p1 == p2 )
        d = detail::orthogonalDistance<Distance>( p1 );
''')],
  PD + r'''
#include <aleph/persistenceDiagrams/distances/Wasserstein.hh>
int main()
{
  Diagram D, E;
  E.add( 0, 4 );
  E.add( 1, 3 );
  using namespace aleph::distances;
  bool a = near( wassersteinDistance( D, E, 2.0 ), std::sqrt( 5.0 ) );
  bool b = near( wassersteinDistance( E, D, 2.0 ), std::sqrt( 5.0 ) );
  return a && b ? 0 : 1;
}
''',
  "a power different from one and a point of the second diagram that is matched with the diagonal",
  "Costs of matching points with the diagonal are not raised to the given power, making the distance asymmetric.")

S("linear-maximum", "P34",
  [(I + "math/PiecewiseLinearFunction.hh", "    auto max = std::numeric_limits<Image>::lowest();\n", "    auto max = Image();\n")],
  r'''
#include <aleph/math/PiecewiseLinearFunction.hh>
#include <iostream>
#include <vector>
int main()
{
  std::vector< std::pair<double,double> > v = { { 0, -2 }, { 1, -1 }, { 2, -3 } };
  aleph::math::PiecewiseLinearFunction<double> f( v.begin(), v.end() );
  std::cout << f.max() << "\n";
  return f.max() == -1 && f.sup() == -1 ? 0 : 1;
}
''',
  "a function whose values are all negative",
  "The supremum of a negative function is reported as zero.")

S("diagonal-removal", "P26",
  [(I + "persistenceDiagrams/PersistenceDiagram.hh", "                        return p.x() == p.y();\n", "                        return p.persistence() <= DataType();\n")],
  PD + r'''
int main()
{
  Diagram D;
  D.add( 3, 1 );
  D.add( 2, 2 );
  D.add( 1, 3 );
  D.removeDiagonal();
  std::cout << D.size() << "\n";
  return D.size() == 2 ? 0 : 1;
}
''',
  "a diagram with points below the diagonal, as they arise for superlevel sets",
  "Removing the diagonal also removes all points below it.")

S("weighted-persistence", "P30",
  [(I + "persistenceDiagrams/Norms.hh",
    "      result += std::abs( point.x() ) * std::pow(", "      result += point.x() * std::pow(")],
  PD + r'''
#include <aleph/persistenceDiagrams/Norms.hh>
int main()
{
  Diagram D;
  D.add( -2, 1 );
  D.add(  1, 2 );
  return near( aleph::totalPersistence( D, 2.0, true ), 19.0 ) ? 0 : 1;
}
''',
  "the weighted variant for a diagram with negative creation values",
  "The weighted total persistence is no norm any more because negative terms cancel others.")

S("gml-stale-edge", "P38",
  [(I + "topology/io/GML.hh", "        edge = {};\n", "")],
  SC + r'''
#include <aleph/topology/io/GML.hh>
#include <unistd.h>
#include <cstdio>
int main()
{
  std::string name = "/tmp/demo-gml-stale-edge-" + std::to_string( getpid() );
  std::ofstream( name ) << "graph [\nnode [\nid 0\n]\nnode [\nid 1\n]\nnode [\nid 2\n]\n"
                        << "edge [\nsource 0\ntarget 1\nweight 5\n]\nedge [\nsource 1\ntarget 2\n]\n]\n";
  SimplicialComplex K;
  aleph::topology::io::GMLReader reader;
  reader( name, K );
  std::remove( name.c_str() );
  auto s = K.find( Simplex( { 1, 2 } ) );
  std::cout << K;
  return s != K.end() && s->data() == 0 && reader.getEdgeAttribute( "1", "2", "weight" ).empty() ? 0 : 1;
}
''',
  "an edge without attributes that follows an edge with attributes",
  "Attributes, in particular weights, of one edge are carried over to all subsequent edges.")

S("witness-slack", "P14",
  [(I + "geometry/WitnessComplex.hh",
    "        if( std::max( D[k][i], D[k][j] ) <= R + smallest.at(k) )\n",
    "        if( std::max( D[k][i], D[k][j] ) <= std::max( R, smallest.at(k) ) )\n")],
  PC + r'''
#include <aleph/geometry/WitnessComplex.hh>
int main()
{
  auto pc = cloud( { {0}, {2}, {5} } );
  std::vector<unsigned> landmarks = { 0, 1, 2 };
  auto K = aleph::geometry::buildWitnessComplex<Distance>( pc, landmarks.begin(), landmarks.end(), 1, 2, 1.0 );
  std::cout << K.size() << "\n";
  // point 1: distances 2, 0, 3, second smallest 2, slack 1, so that all edges exist
  return K.size() == 6 ? 0 : 1;
}
''',
  "positive values for both parameters of the witness complex",
  "The slack is not added to the distance threshold, so that edges are missing.")

S("envelope-duplicates", "P31",
  [(I + "persistenceDiagrams/Envelope.hh", "                   return p.y() < q.y();\n", "                   return p.y() > q.y();\n")],
  PD + r'''
#include <aleph/persistenceDiagrams/Envelope.hh>
int main()
{
  Diagram D;
  D.add( 0, 4 );
  D.add( 1, 3 );
  aleph::Envelope envelope;
  auto f = envelope( D );
  return near( f( 4.0 ), 4.0 ) ? 0 : 1;
}
''',
  "two points with the same sum of their coordinates",
  "The envelope passes through the least persistent point instead of the most persistent one.")

S("raw-diagonal", "P37",
  [(I + "persistenceDiagrams/io/Raw.hh", "      persistenceDiagram.add( a, b );\n", "      if( a != b )\n        persistenceDiagram.add( a, b );\n")],
  PD + r'''
#include <aleph/persistenceDiagrams/io/Raw.hh>
#include <unistd.h>
#include <cstdio>
int main()
{
  std::string name = "/tmp/demo-raw-diagonal-" + std::to_string( getpid() );
  Diagram D;
  D.add( 1, 2 );
  D.add( 3, 3 );
  std::ofstream( name ) << D;
  auto E = aleph::io::load<double>( name );
  std::remove( name.c_str() );
  std::cout << E;
  return D == E ? 0 : 1;
}
''',
  "a diagram that contains points on the diagonal",
  "Points on the diagonal are lost when a diagram is being loaded.")

S("eccentricity-root", "P45",
  [(I + "containers/DataDescriptors.hh", "      eccentricity = std::pow( eccentricity, 1.0 / order );\n", "      eccentricity = order > 1 ? std::sqrt( eccentricity ) : eccentricity;\n")],
  PC + r'''
#include <aleph/containers/DataDescriptors.hh>
int main()
{
  auto pc = cloud( { {0,0}, {0,4} } );
  auto e  = aleph::containers::eccentricities<Distance>( pc, 3 );
  std::cout << e[0] << "\n";
  return std::abs( e[0] - std::cbrt( 32.0 ) ) < 1e-9 ? 0 : 1;
}
''',
  "an order of at least three",
  "The wrong root is taken.")

S("clique-graph-fan", "P18",
  [(I + "topology/CliqueGraph.hh",
    "        for( std::size_t j = i+1; j < indices.size(); j++ )\n",
    "        for( std::size_t j = i+1; j < std::min( i+2, indices.size() ); j++ )\n")],
  SC + r'''
#include <aleph/topology/CliqueGraph.hh>
int main()
{
  SimplicialComplex K = { {0}, {1}, {2}, {3}, {4}, {0,1}, {0,2}, {0,3}, {0,4}, {1,2}, {1,3}, {1,4}, {0,1,2}, {0,1,3}, {0,1,4} };
  auto G = aleph::topology::getCliqueGraph( K, 2 );
  std::cout << G.size() << "\n";
  return G.size() == 6 ? 0 : 1;
}
''',
  "three or more simplices that share a common face",
  "Not all pairs of simplices with a common face are connected in the clique graph.")

S("reduced-comparison", "P07",
  [(I + "topology/representations/List.hh",
    "    return _data == other._data && _dimensions == other._dimensions;\n",
    "    return _data == other._data;\n")],
  r'''
#include <aleph/topology/BoundaryMatrix.hh>
#include <aleph/topology/representations/List.hh>
#include <iostream>
int main()
{
  aleph::topology::representations::List<unsigned> A, B;
  A.setNumColumns( 1 );
  B.setNumColumns( 1 );
  B.setDimension( 0, 1 );
  std::cout << ( A == B ) << "\n";
  return A == B ? 1 : 0;
}
''',
  "two matrices whose columns have the same entries but different dimensions",
  "Matrices that describe different complexes are considered to be equal.")

S("step-maximum", "P33",
  [(I + "math/StepFunction.hh", "      max = std::max( max, f.y() );\n", "      max = std::max( max, std::abs( f.y() ) );\n")],
  r'''
#include <aleph/math/StepFunction.hh>
#include <iostream>
int main()
{
  aleph::math::StepFunction<double> f;
  f.add( 0, 1, 2 );
  f.add( 3, 4, -5 );
  std::cout << f.max() << "\n";
  return f.max() == 2 ? 0 : 1;
}
''',
  "a step function whose smallest value is negative and larger in magnitude than its largest one",
  "The maximum of a step function is not one of its values any more.")
