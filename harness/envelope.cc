// Envelopes of all small diagrams.

#include "pd.hh"

#include <memory>

#include <aleph/persistenceDiagrams/Envelope.hh>

using namespace vf;

template <class T> void run( const Pairs& p, const char* name, double eps, double scale = 1 )
{
  H().setCase( cat( name, " ", show( p ) ) );
  H().state();
  H().guarded( "envelope", [&]
  {
    std::map<double, double> nodes;
    for( auto&& x : p )
      if( x.second != INF )
      {
        double s = x.first + x.second, d = x.second - x.first;
        if( !nodes.count( s ) || nodes[s] < d ) nodes[s] = d;
      }
    aleph::Envelope envelope;
    H().check( envelope.removeUnpairedPoints(), "flag", "unpaired points should be removed by default" );
    auto f = envelope( toDiagram<T>( p ) );
    H().step();
    // Unpaired points are removed on demand only
    bool finite = true;
    for( auto&& x : p ) finite = finite && x.second != INF;
    envelope.setRemoveUnpairedPoints( false );
    H().check( !envelope.removeUnpairedPoints(), "configuration", "configuration is not stored" );
    std::unique_ptr<decltype( f )> all;
    if( finite ) all.reset( new decltype( f )( envelope( toDiagram<T>( p ) ) ) );
    envelope.setRemoveUnpairedPoints();
    H().check( envelope.removeUnpairedPoints(), "configuration", "configuration is not stored" );
    double last = 24 * scale;
    for( auto&& q : nodes ) last = std::max( last, q.first + scale );
    for( double x = -12 * scale; x <= last; x += 0.25 * scale )
    {
      double e = 0;
      auto it = nodes.lower_bound( x );
      if( it != nodes.end() && it->first == x ) e = it->second;
      else if( it != nodes.end() && it != nodes.begin() )
      {
        auto l = std::prev( it );
        e = l->second + ( it->second - l->second ) * ( x - l->first ) / ( it->first - l->first );
      }
      double g = f( T( x ) );
      if( all ) H().check( close( ( *all )( T( x ) ) / scale, e / scale, eps ), "configuration", cat( "value at ", x, " without removing unpaired points should be ", e, ", got ", ( *all )( T( x ) ) ) );
      H().check( close( g / scale, e / scale, eps ), "value", cat( "value at ", x, " should be ", e, ", got ", g ) );
    }
    H().trace();
    H().sample();
  } );
}

void explore()
{
  // Families of larger diagrams
  bigDiagrams( H().thorough ? 60 : 30, [&] ( const std::string&, const Pairs& p )
  {
    if( !H().mine() ) return;
    run<double>( p, "double", 1e-9 );
    Pairs r( p.rbegin(), p.rend() );
    r.insert( r.end(), p.begin(), p.begin() + long( p.size() / 2 ) );
    run<double>( r, "double", 1e-9 );
  } );
  Pairs alphabet = { { 0, 1 }, { -1, 2 }, { 0, 4 }, { 2, 2 }, { 1, 3 }, { 3, 7 }, { 0, INF } };
  std::size_t n = H().thorough ? 6 : 5;
  for( std::size_t k = 0; k <= n; k++ )
    forAllVectors( k, unsigned( alphabet.size() ), [&] ( const std::vector<unsigned>& x )
    {
      if( !H().mine() ) return;
      Pairs p;
      for( auto i : x ) p.push_back( alphabet[i] );
      run<double>( p, "double", 1e-9 );
      if( k <= 3 )
      {
        run<float>( p, "float", 1e-5 );
        for( double c : SCALES ) run<double>( scaled( p, c ), "double", 1e-9, c );
      }
    } );
  // Superlevel sets: persistence is negative
  Pairs other = { { 1, 0 }, { 3, -1 }, { 4, 4 }, { 2, -1 } };
  for( std::size_t k = 0; k <= 3; k++ )
    forAllVectors( k, unsigned( other.size() ), [&] ( const std::vector<unsigned>& x )
    {
      if( !H().mine() ) return;
      Pairs p;
      for( auto i : x ) p.push_back( other[i] );
      run<double>( p, "double", 1e-9 );
    } );
}
