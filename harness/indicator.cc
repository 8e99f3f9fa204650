// Persistence indicator functions of all small diagrams.

#include "pd.hh"

#include <aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh>

using namespace vf;

template <class T> void run( const Pairs& p, const char* name, double eps, double scale = 1 )
{
  H().setCase( cat( name, " ", show( p ) ) );
  H().state();
  H().guarded( "indicator", [&]
  {
    auto f = aleph::persistenceIndicatorFunction( toDiagram<T>( p ) );
    H().step();
    double total = 0, largest = 0;
    for( auto&& x : p ) total += std::abs( x.second - x.first );
    double first = -4.75 * scale, last = 8 * scale;
    for( auto&& q : p ) { first = std::min( first, std::floor( std::min( q.first, q.second ) / scale ) * scale - 0.75 * scale ); last = std::max( last, std::max( q.first, q.second ) + scale ); }
    for( double x = first; x <= last; x += 0.5 * scale )
    {
      double e = 0;
      for( auto&& q : p ) e += std::min( q.first, q.second ) < x && x < std::max( q.first, q.second );
      double g = f( T( x ) );
      largest = std::max( largest, e );
      H().check( g == e, "value", cat( "number of active intervals at ", x, " should be ", e, ", got ", g ) );
    }
    H().check( close( f.integral() / scale, total / scale, eps ), "integral", cat( "integral should be ", total, ", got ", f.integral() ) );
    H().check( f.max() == largest, "maximum", cat( "maximum should be ", largest, ", got ", f.max() ) );
    H().trace();
    H().sample();
  } );
}

void explore()
{
  // Families of larger diagrams
  bigDiagrams( H().thorough ? 60 : 30, [&] ( const std::string&, const Pairs& p )
  {
    if( !H().mine() ) return;
    run<double>( p, "double", 1e-9 );
    Pairs r( p.rbegin(), p.rend() );
    r.insert( r.end(), p.begin(), p.begin() + long( p.size() / 2 ) );
    run<double>( r, "double", 1e-9 );
  } );
  std::size_t n = H().thorough ? 6 : 5;
  auto all = [&] ( const Pairs& alphabet, std::size_t n, double scale = 1 )
  {
    for( std::size_t k = 0; k <= n; k++ )
      forAllVectors( k, unsigned( alphabet.size() ), [&] ( const std::vector<unsigned>& x )
      {
        if( !H().mine() ) return;
        Pairs p;
        for( auto i : x ) p.push_back( alphabet[i] );
        p = scaled( p, scale );
        run<double>( p, "double", 1e-9, scale );
        run<float>( p, "float", 1e-5, scale );
      } );
  };
  all( { { 0, 1 }, { 1, 3 }, { 2, 2 }, { -1, 2 }, { -3, -3 }, { 3, 6 }, { 0.5, 4 } }, n );
  // Very small and very large coordinates
  for( double c : SCALES ) all( { { 0, 1 }, { 1, 3 }, { -1, 2 }, { 2, 2 }, { 0.5, 4 } }, 3, c );
  // All points with coordinates 0, ..., 3
  all( { { 0, 0 }, { 0, 1 }, { 0, 2 }, { 0, 3 }, { 1, 1 }, { 1, 2 }, { 1, 3 }, { 2, 2 }, { 2, 3 }, { 3, 3 } }, 3 );
  // Superlevel sets
  all( { { 1, 0 }, { 3, 1 }, { 2, -2 }, { 4, 4 }, { -1, -3 } }, n );
}
