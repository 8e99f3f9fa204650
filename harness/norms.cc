// Norms, extraction and entropies of all small diagrams.

#include "pd.hh"

#include <aleph/persistenceDiagrams/Entropy.hh>
#include <aleph/persistenceDiagrams/Extraction.hh>
#include <aleph/persistenceDiagrams/Norms.hh>

using namespace vf;

static double entropy( const std::vector<double>& values )
{
  double total = 0, e = 0;
  for( auto v : values ) total += v;
  for( auto v : values ) if( v != 0 ) e -= v / total * std::log2( v / total );
  return e;
}

template <class T> void norms( const Pairs& p, const char* name, double scale = 1 )
{
  H().setCase( cat( name, " ", show( p ) ) );
  H().state();
  H().guarded( "norms", [&]
  {
    auto D = toDiagram<T>( p );
    for( double k : { 1.0, 2.0, 3.0, 0.5 } )
      for( bool weighted : { false, true } )
      {
        double e = 0;
        for( auto&& x : p ) e += ( weighted ? std::abs( x.first ) : 1 ) * std::pow( std::abs( x.second - x.first ), k );
        double g = aleph::totalPersistence( D, k, weighted );
        H().step( 2 );
        double unit = std::pow( scale, k ) * ( weighted ? scale : 1 );
        H().check( close( g / unit, e / unit ), "total", cat( "total persistence for k=", k, " weighted=", weighted, " should be ", e, ", got ", g ) );
        g = aleph::pNorm( D, k, weighted );
        unit = std::pow( unit, 1 / k );
        H().check( close( g / unit, std::pow( e, 1 / k ) / unit ), "norm", cat( "norm for p=", k, " weighted=", weighted, " should be ", std::pow( e, 1 / k ), ", got ", g ) );
      }
    double e = 0, total = 0;
    for( auto&& x : p ) { e = std::max( e, std::abs( x.second - x.first ) ); total += std::pow( x.second - x.first, 2 ); }
    H().check( double( aleph::infinityNorm( D ) ) == e, "infinity", cat( "infinity norm should be ", e, ", got ", aleph::infinityNorm( D ) ) );
    H().check( close( aleph::totalPersistence( D ) / scale / scale, total / scale / scale ) && close( aleph::pNorm( D ) / scale, std::sqrt( total ) / scale ), "defaults", "default power should be two" );
    bool thrown = false;
    try { aleph::pNorm( D, 0.0 ); } catch( std::exception& ) { thrown = true; }
    H().check( thrown, "zero-power", "a power of zero has to be rejected" );

    for( bool absolute : { false, true } )
    {
      std::vector<T> v;
      aleph::persistence( D, std::back_inserter( v ), absolute );
      bool ok = v.size() == p.size();
      for( std::size_t i = 0; ok && i < v.size(); i++ ) ok = double( v[i] ) == ( absolute ? std::abs( p[i].second - p[i].first ) : p[i].second - p[i].first );
      H().check( ok, "persistence", cat( "persistence values with absolute=", absolute, " are wrong" ) );
    }
    std::map<Pair, unsigned> count;
    for( auto&& x : p ) ++count[x];
    std::vector<double> v;
    aleph::weightedPersistence( D, std::back_inserter( v ) );
    H().step( 4 );
    bool ok = v.size() == count.size();
    std::size_t i = 0;
    for( auto&& c : count )
    {
      if( !ok ) break;
      ok = close( v[i++] / scale, c.second / double( p.size() ) * ( c.first.second - c.first.first ) / scale );
    }
    H().check( ok, "weighted", cat( "weighted persistence values are wrong: ", str( v ) ) );
    H().trace();
    H().sample();
  } );
}

template <class T> void entropies( const Pairs& p, const char* name, double scale = 1 )
{
  const double eps = sizeof( T ) == 4 ? 1e-5 : 1e-9;
  H().setCase( cat( name, " entropy ", show( p ) ) );
  H().state();
  H().guarded( "entropy", [&]
  {
    auto D = toDiagram<T>( p );
    std::vector<double> v;
    for( auto&& x : p ) v.push_back( x.second - x.first );
    double e = entropy( v ), g = aleph::persistentEntropy( D );
    H().step();
    H().check( close( g, e, eps ), "persistent", cat( "persistent entropy should be ", e, ", got ", g ) );

    bool different = false;
    for( auto&& x : p ) different = different || x != p[0];
    if( different )
    {
      std::vector<double> areas;
      for( std::size_t i = 0; i < p.size(); i++ )
      {
        double d = INF;
        for( std::size_t j = 0; j < p.size(); j++ )
          if( i != j ) d = std::min( d, std::pow( p[i].first - p[j].first, 2 ) + std::pow( p[i].second - p[j].second, 2 ) );
        areas.push_back( d );
      }
      double total = 0;
      for( auto a : areas ) total += a;
      if( total > 0 )
      {
        e = entropy( areas );
        g = aleph::nearestNeighbourAreaEntropy( D );
        H().step();
        H().check( close( g, e, eps ), "nearest-neighbour", cat( "nearest-neighbour area entropy should be ", e, ", got ", g ) );
      }
    }

    // The last row and column of the grid contain the maximum
    for( unsigned n : { 1u, 2u, 3u, 5u } )
    {
      std::map<std::pair<unsigned, unsigned>, double> cells;
      double x0 = INF, x1 = -INF, y0 = INF, y1 = -INF;
      for( auto&& x : p ) { x0 = std::min( x0, x.first ); x1 = std::max( x1, x.first ); y0 = std::min( y0, x.second ); y1 = std::max( y1, x.second ); }
      bool exact = true;
      for( auto&& x : p )
      {
        // The horizontal axis is reversed
        double i = x1 > x0 ? ( x1 - x.first ) / ( x1 - x0 ) * ( n - 1 ) : 0, j = y1 > y0 ? ( x.second - y0 ) / ( y1 - y0 ) * ( n - 1 ) : 0;
        for( double q : { i, j } )
          if( std::abs( q - std::round( q ) ) < 1e-3 && std::round( q ) != 0 && std::round( q ) != n - 1 ) exact = false;
        cells[ { unsigned( std::floor( i + 1e-6 ) ), unsigned( std::floor( j + 1e-6 ) ) } ] += 1;
      }
      if( !exact ) continue;
      v.clear();
      for( auto&& c : cells ) v.push_back( c.second );
      e = entropy( v );
      g = aleph::gridEntropy( D, n );
      H().step();
      H().check( close( g, e, eps ), "grid", cat( "grid entropy for n=", n, " should be ", e, ", got ", g ) );
    }
    H().trace();
  } );
}

template <class T> void all( const Pairs& alphabet, std::size_t n, const char* name, bool floating, double scale = 1 )
{
  for( std::size_t k = 0; k <= n; k++ )
    forAllVectors( k, unsigned( alphabet.size() ), [&] ( const std::vector<unsigned>& x )
    {
      if( !H().mine() ) return;
      Pairs p;
      for( auto i : x ) p.push_back( alphabet[i] );
      norms<T>( scaled( p, scale ), name, scale );
    } );
}

template <class T> void allEntropies( const Pairs& alphabet, std::size_t n, const char* name, double scale = 1 )
{
  for( std::size_t k = 0; k <= n; k++ )
    forAllVectors( k, unsigned( alphabet.size() ), [&] ( const std::vector<unsigned>& x )
    {
      if( !H().mine() ) return;
      Pairs p;
      for( auto i : x ) p.push_back( alphabet[i] );
      entropies<T>( scaled( p, scale ), name, scale );
    } );
}

void explore()
{
  // Families of larger diagrams
  bigDiagrams( H().thorough ? 80 : 40, [&] ( const std::string& name, const Pairs& p )
  {
    if( !H().mine() ) return;
    norms<double>( p, "double" );
    bool integers = true;
    for( auto&& x : p ) integers = integers && x.first == std::floor( x.first ) && x.second == std::floor( x.second );
    if( integers ) norms<int>( p, "int" );
    entropies<double>( p, "double" );
    Pairs r( p.rbegin(), p.rend() );
    r.insert( r.end(), p.begin(), p.begin() + long( p.size() / 2 ) );
    norms<double>( r, "double" );
    entropies<double>( r, "double" );
  } );
  std::size_t n = H().thorough ? 6 : 5;
  all<double>( { { 0, 1 }, { -1, 0.5 }, { 2, 2 }, { 1, 5 }, { 3, 1 }, { -4, -2 } }, n, "double", true );
  all<float>( { { 0, 1 }, { -1, 0.5 }, { 2, 2 }, { 1, 5 }, { 3, 1 } }, n, "float", true );
  all<int>( { { 0, 1 }, { -1, 4 }, { 2, 2 }, { 3, 1 }, { 2, 10 } }, n, "int", false );
  allEntropies<double>( { { 0, 1 }, { 0.25, 4 }, { 2, 2 }, { 1, 5 }, { -0.5, 3.5 }, { 1.25, 2.5 } }, n, "double" );
  allEntropies<float>( { { 0, 1 }, { 0.25, 4 }, { 2, 2 }, { 1, 5 } }, n, "float" );
  // Very small and very large coordinates
  for( double c : SCALES )
  {
    all<double>( { { 0, 1 }, { -1, 0.5 }, { 2, 2 }, { 3, 1 } }, 4, "double", true, c );
    allEntropies<double>( { { 0, 1 }, { 0.25, 4 }, { 2, 2 }, { 1, 5 } }, 4, "double", c );
  }
  // Superlevel sets
  allEntropies<double>( { { 1, 0 }, { 4, 0.25 }, { 2, 2 } }, n, "double" );
}
