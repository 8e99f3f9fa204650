// Wasserstein distances of all pairs of small diagrams.

#include "pd.hh"

#include <aleph/persistenceDiagrams/distances/Wasserstein.hh>

using namespace vf;

static double reference( const Pairs& a, const Pairs& b, double power )
{
  if( a.size() + b.size() > 8 ) return std::pow( assignmentCosts( matchingCosts( a, b, power ) ), 1 / power );
  double e = INF;
  allMatchings( a, b, [&] ( const std::vector<double>& costs )
  {
    double s = 0;
    for( auto c : costs ) s += std::pow( c, power );
    e = std::min( e, s );
  } );
  return std::pow( e, 1 / power );
}

template <class T> void run( const Pairs& a, const Pairs& b, const char* name, double eps, double scale = 1 )
{
  H().setCase( cat( name, " ", show( a ), " and ", show( b ) ) );
  H().state();
  H().guarded( "distance", [&]
  {
    auto A = toDiagram<T>( a, 1 ), B = toDiagram<T>( b, 1 );
    for( double power : { 1.0, 2.0, 3.0 } )
    {
      double e = reference( a, b, power );
      double g = double( power == 1 ? aleph::distances::wassersteinDistance( A, B ) : aleph::distances::wassersteinDistance( A, B, T( power ) ) );
      H().step();
      H().check( close( g / scale, e / scale, eps ), "wasserstein", cat( "Wasserstein distance with power ", power, " should be ", e, ", got ", g ) );
    }
    H().trace();
    H().sample();
  } );
}

template <class T> void all( const Pairs& alphabet, std::size_t n, std::size_t m, const char* name, double eps, double scale = 1 )
{
  auto left = allDiagrams( alphabet, n ), right = allDiagrams( alphabet, m );
  for( auto&& a : left )
    for( auto&& b : right )
    {
      if( !H().mine() ) continue;
      run<T>( a, b, name, eps, scale );
      auto c = b;
      std::reverse( c.begin(), c.end() );
      run<T>( c, a, name, eps, scale );
    }
}

void explore()
{
  // Families of larger diagrams, every one with every other of similar size
  auto large = bigDiagrams( H().thorough ? 20 : 10 );
  for( auto&& a : large )
    for( auto&& b : large )
      if( a.second.size() + b.second.size() > 6 && ( a.second.size() == b.second.size() || a.second.size() == b.second.size() + 1 || b.second.size() == 3 || a.second.size() == 2 ) && H().mine() )
        run<double>( a.second, b.second, "double", 1e-9 );
  all<double>( { { 0, 1 }, { 0, 2 }, { 1, 3 }, { 1, 1 }, { -1, 4 }, { 2, 3.5 } }, 3, 2, "double", 1e-9 );
  all<double>( { { 0, 4 }, { 1, 3 }, { 2, 10 }, { 5, 9 } }, 4, 3, "double", 1e-9 );
  all<float>( { { 0, 1 }, { 0.5, 2 }, { 3, 5 } }, 3, 3, "float", 1e-5 );
  all<double>( { { 2, 0 }, { 3, -1 }, { 0, 4 } }, 3, 3, "double", 1e-9 );
  // Very small and very large coordinates
  for( double c : SCALES )
  {
    all<double>( scaled( { { 0, 1 }, { 1, 3 }, { 2, 10 }, { 5, 5.5 } }, c ), 3, 2, "double", 1e-9, c );
    if( c > 1e-8 && c < 1e8 ) all<float>( scaled( { { 0, 1 }, { 0.5, 2 }, { 3, 5 } }, c ), 2, 2, "float", 1e-5, c );
  }
  if( H().thorough )
  {
    all<double>( { { 0, 1 }, { 0, 2 }, { 1, 3 }, { 1, 1 }, { -1, 4 }, { 2, 3.5 } }, 4, 3, "double", 1e-9 );
    all<double>( { { 0, 4 }, { 1, 3 }, { 2, 10 }, { 5, 9 } }, 4, 4, "double", 1e-9 );
  }

  // Metric axioms
  auto D = allDiagrams( { { 0, 2 }, { 1, 3 }, { 1, 5 }, { 2, 2 } }, 2 );
  std::map<std::pair<std::size_t, std::size_t>, double> d;
  for( std::size_t i = 0; i < D.size(); i++ )
    for( std::size_t j = 0; j < D.size(); j++ )
      for( double power : { 2.0 } )
      {
        H().setCase( cat( "axioms ", show( D[i] ), " and ", show( D[j] ) ) );
        H().guarded( "axioms", [&] { d[ { i, j } ] = aleph::distances::wassersteinDistance( toDiagram<double>( D[i] ), toDiagram<double>( D[j] ), power ); } );
      }
  auto off = [] ( Pairs p ) { p.erase( std::remove_if( p.begin(), p.end(), [] ( const Pair& x ) { return x.first == x.second; } ), p.end() ); std::sort( p.begin(), p.end() ); return p; };
  for( std::size_t i = 0; i < D.size(); i++ )
    for( std::size_t j = 0; j < D.size(); j++ )
    {
      H().check( close( d[ { i, j } ], d[ { j, i } ] ), "symmetry", cat( "distance of ", show( D[i] ), " and ", show( D[j] ), " is not symmetric" ) );
      H().check( ( d[ { i, j } ] == 0 ) == ( off( D[i] ) == off( D[j] ) ), "zero", cat( "distance of ", show( D[i] ), " and ", show( D[j] ), " is ", d[ { i, j } ] ) );
      for( std::size_t k = 0; k < D.size(); k++ )
        H().check( d[ { i, k } ] <= d[ { i, j } ] + d[ { j, k } ] + 1e-9, "triangle", cat( "triangle inequality fails for ", show( D[i] ), ", ", show( D[j] ), ", ", show( D[k] ) ) );
    }

  // Dimensions have to coincide
  H().setCase( "dimensions" );
  bool thrown = false;
  try { aleph::distances::wassersteinDistance( toDiagram<double>( { { 0, 1 } }, 0 ), toDiagram<double>( { { 0, 1 } }, 1 ) ); } catch( std::exception& ) { thrown = true; }
  H().check( thrown, "dimensions", "diagrams of different dimensions must be rejected" );
}
