I = "include/aleph/"

S("elder-rule-ties", "P03",
  [(I + "persistentHomology/ConnectedComponents.hh",
    "    if( uIndex < vIndex )\n",
    "    if( uIndex < vIndex && K[uIndex].data() != K[vIndex].data() )\n")],
  r'''
#include <aleph/persistentHomology/ConnectedComponents.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>
#include <iostream>

int main()
{
  using Simplex = aleph::topology::Simplex<double, unsigned>;
  aleph::topology::SimplicialComplex<Simplex> K;
  for( unsigned v : { 2u, 1u, 0u } ) K.push_back( Simplex( v, 1.0 ) );
  K.push_back( Simplex( { 0, 1 }, 2.0 ) );
  K.push_back( Simplex( { 1, 2 }, 3.0 ) );
  using Traits = aleph::traits::PersistencePairingCalculation< aleph::PersistencePairing<unsigned> >;
  auto t  = aleph::calculateZeroDimensionalPersistenceDiagram<Simplex, Traits>( K );
  auto pp = std::get<1>( t );
  bool ok = false;
  for( auto&& x : pp )
  {
    std::cout << x.first << " " << x.second << "\n";
    if( x.first == 0 && x.second >= K.size() ) ok = true;
  }
  return ok ? 0 : 1;
}
''',
  "two components whose vertices have the same weight, merged by an edge whose first vertex belongs to the older one",
  "The older component dies, so that the pairing names the wrong creators.")

S("cone-apex", "P20",
  [(I + "topology/QuotientSpaces.hh",
    "    lowerConeVertex = static_cast<VertexType>( upperConeVertex + 1 );",
    "    lowerConeVertex = static_cast<VertexType>( vertices.size() + 1 );")],
  r'''
#include <aleph/topology/QuotientSpaces.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>
#include <iostream>

int main()
{
  using Simplex = aleph::topology::Simplex<double, unsigned>;
  aleph::topology::SimplicialComplex<Simplex> K = { {2}, {5}, {2,5} };
  auto S = aleph::topology::suspension( K );
  std::cout << S.size() << "\n";
  // 2 apices, 3 original simplices, and two cones of 3 simplices each
  bool ok = S.size() == 11;
  for( auto&& s : S ) if( s.contains( 3u ) && s.contains( 6u ) ) ok = false;
  std::vector<unsigned> v;
  S.vertices( std::back_inserter( v ) );
  return ok && v == std::vector<unsigned>( { 2, 5, 6, 7 } ) ? 0 : 1;
}
''',
  "a complex whose vertices are not numbered consecutively from zero",
  "The second apex of a suspension is not a new vertex: it may coincide with a vertex of the complex.")

S("vertex-data-order", "P10",
  [(I + "geometry/RipsExpander.hh",
    """      std::set<VertexType> vertices;
      K.vertices( std::inserter( vertices, vertices.begin() ) );

      IndexType index = IndexType();
      for( auto&& vertex : vertices )
        vertexToIndex[vertex] = index++;
""",
    """      for( auto&& s : K )
        if( s.dimension() == 0 )
          vertexToIndex.emplace( s[0], vertexToIndex.size() );
""")],
  r'''
#include <aleph/geometry/RipsExpander.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>
#include <iostream>

int main()
{
  using Simplex = aleph::topology::Simplex<double, unsigned>;
  using Complex = aleph::topology::SimplicialComplex<Simplex>;
  Complex K = { {1}, {0}, {2}, {0,1}, {1,2} };
  std::vector<double> data = { 1, 2, 3 };
  aleph::geometry::RipsExpander<Complex> expander;
  auto L = expander.assignMaximumData( K, data.begin(), data.end() );
  for( auto&& s : L )
  {
    double e = 0;
    for( auto&& v : s ) e = std::max( e, data[v] );
    if( s.data() != e ) { std::cout << s << "\n"; return 1; }
  }
  return 0;
}
''',
  "a complex whose vertices do not occur in ascending order",
  "Data values are assigned to the wrong vertices, and hence to the wrong simplices.")

S("lower-star-negative", "P06",
  [(I + "topology/filtrations/LowerStar.hh",
    "    DataType maxValue = std::numeric_limits<DataType>::lowest();",
    "    DataType maxValue = std::numeric_limits<DataType>::min();")],
  r'''
#include <aleph/topology/filtrations/LowerStar.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>
#include <iostream>

int main()
{
  using Simplex = aleph::topology::Simplex<double, unsigned>;
  aleph::topology::SimplicialComplex<Simplex> K = { {0}, {1}, {2}, {0,1}, {1,2} };
  std::vector<double> f = { -1, -3, -2 };
  aleph::topology::filtrations::LowerStar<Simplex> lowerStar( f.begin(), f.end() );
  K.sort( std::ref( lowerStar ) );
  for( auto&& s : K ) std::cout << s << "\n";
  return K[0] == Simplex( 1u ) && K[1] == Simplex( 2u ) && K[3] == Simplex( 0u ) ? 0 : 1;
}
''',
  "negative function values",
  "All simplices with negative values are considered to be tied, so that the lower-star filtration is not sorted by function values.")

S("remove-cofaces", "P05",
  [(I + "topology/SimplicialComplex.hh",
    """          foundInvalidSimplex = true;
          itSimplex           = _simplices.template get<index_t>().erase( itSimplex );""",
    """          foundInvalidSimplex = itSimplex->dimension() < 2;
          itSimplex           = _simplices.template get<index_t>().erase( itSimplex );""")],
  r'''
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>
#include <iostream>

int main()
{
  using Simplex = aleph::topology::Simplex<double, unsigned>;
  // A tetrahedron, in descending order of dimensions
  aleph::topology::SimplicialComplex<Simplex> K = {
    {0,1,2,3}, {0,1,2}, {0,1,3}, {0,2,3}, {1,2,3}, {0,1}, {0,2}, {0,3}, {1,2}, {1,3}, {2,3}, {0}, {1}, {2}, {3}
  };
  K.remove( Simplex( { 0, 1 } ) );
  std::cout << K.size() << "\n";
  // The edge, two triangles and the tetrahedron have to be gone
  return K.size() == 11 ? 0 : 1;
}
''',
  "removing a simplex from a complex in which cofaces precede faces, with cofaces at least two dimensions above",
  "Cofaces whose faces have been removed remain in the complex, so that it is no longer closed under faces.")

S("beta-lune-open", "P16",
  [(I + "geometry/BetaSkeleton.hh",
    "    return distance <= _radius * _radius;",
    "    return distance < _radius * _radius;")],
  r'''
#include <aleph/containers/PointCloud.hh>
#include <aleph/geometry/BetaSkeleton.hh>
#include <aleph/geometry/distances/Euclidean.hh>
#include <iostream>

int main()
{
  // Rectangle: the fourth point lies on the boundary of the disk spanned by a diagonal
  aleph::containers::PointCloud<double> P( 4, 2 );
  P.set( 0, { 0.0, 0.0 } ); P.set( 1, { 6.0, 0.0 } ); P.set( 2, { 6.0, 8.0 } ); P.set( 3, { 0.0, 8.0 } );
  auto K = aleph::geometry::buildBetaSkeletonNaive( P, 1.0, aleph::geometry::distances::Euclidean<double>() );
  std::cout << K.size() << "\n";
  return K.size() == 8 ? 0 : 1;
}
''',
  "a point exactly on the boundary of the empty region of two other points",
  "The naive construction adds edges although their (closed) region contains another point.")
