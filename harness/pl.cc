// Piecewise linear functions: all functions on a few nodes, their sums and
// short sequences of operations.

#include "common.hh"

#include <functional>
#include <tuple>

#include <aleph/math/PiecewiseLinearFunction.hh>

#include <cmath>
#include <map>

using namespace vf;
using namespace aleph::math;

using Nodes = std::map<double, double>;

// Position of the first node and distance of the nodes
static double origin = 0, width = 1;

static double at( const Nodes& n, double x )
{
  auto it = n.lower_bound( x );
  if( it == n.end() || ( it == n.begin() && it->first != x ) ) return 0;
  if( it->first == x ) return it->second;
  auto l = std::prev( it );
  return l->second + ( it->second - l->second ) * ( x - l->first ) / ( it->first - l->first );
}

// Combines functions at all nodes; the domains have to be the same
static Nodes combine( const Nodes& a, const Nodes& b, double s, double t )
{
  Nodes r;
  for( auto&& x : a ) r[ x.first ] = s * x.second + t * at( b, x.first );
  for( auto&& x : b ) r[ x.first ] = s * at( a, x.first ) + t * x.second;
  return r;
}

static Nodes absolute( const Nodes& a )
{
  Nodes r;
  for( auto it = a.begin(); it != a.end(); ++it )
  {
    r[ it->first ] = std::abs( it->second );
    auto next = std::next( it );
    if( next != a.end() && it->second * next->second < 0 )
      r[ it->first + ( next->first - it->first ) * it->second / ( it->second - next->second ) ] = 0;
  }
  return r;
}

static double integral( const Nodes& a, unsigned p )
{
  auto n = absolute( a );
  double total = 0;
  for( auto it = n.begin(); it != n.end() && std::next( it ) != n.end(); ++it )
  {
    auto next = std::next( it );
    double sum = 0;
    for( unsigned k = 0; k <= p; k++ ) sum += std::pow( it->second, k ) * std::pow( next->second, p - k );
    total += ( next->first - it->first ) * sum / ( p + 1 );
  }
  return std::pow( total, 1.0 / p );
}

static std::string show( const Nodes& n )
{
  std::string s;
  for( auto&& x : n ) s += cat( x.first, ":", x.second, " " );
  return s;
}

template <class T> PiecewiseLinearFunction<T> make( const Nodes& n, bool reversed = false )
{
  std::vector<std::pair<T, T>> v;
  for( auto&& x : n ) v.push_back( { T( x.first ), T( x.second ) } );
  if( reversed ) std::reverse( v.begin(), v.end() );
  return PiecewiseLinearFunction<T>( v.begin(), v.end() );
}

template <class T> void same( const PiecewiseLinearFunction<T>& f, const Nodes& e, const char* key, const std::string& what )
{
  const double eps = sizeof( T ) == 4 ? 1e-4 : 1e-9;
  double last = std::max( origin + 4.5 * width, e.empty() ? 0 : e.rbegin()->first + 0.5 * width );
  for( double x = origin - 0.5 * width; x <= last; x += 0.125 * width )
    H().check( close( f( T( x ) ), at( e, x ), eps ), key, cat( what, ": value at ", x, " should be ", at( e, x ), ", got ", f( T( x ) ) ) );
  for( unsigned p : { 1u, 2u, 3u } )
    H().check( close( f.integral( T( p ) ) / std::pow( width, 1.0 / p ), integral( e, p ) / std::pow( width, 1.0 / p ), sizeof( T ) == 4 ? 1e-3 : 1e-6 ), key, cat( what, ": integral for p=", p, " should be ", integral( e, p ), ", got ", f.integral( T( p ) ) ) );
  double largest = e.empty() ? 0 : -INFINITY;
  for( auto&& x : e ) largest = std::max( largest, x.second );
  H().check( close( f.max(), largest, eps ) && f.sup() == f.max(), key, cat( what, ": maximum should be ", largest, ", got ", f.max() ) );
  H().step();
}

template <class T> void unary( const Nodes& n, const char* name )
{
  H().setCase( cat( name, " ", origin, " ", width, ": ", show( n ) ) );
  H().state();
  H().guarded( "unary", [&]
  {
    auto f = make<T>( n );
    same( f, n, "function", "function" );
    same( make<T>( n, true ), n, "function", "function with nodes in reverse order" );
    auto e = n;
    auto scaled = [&] ( double s, double o ) { for( auto&& x : e ) x.second = s * n.at( x.first ) + o; return e; };
    same( -f, scaled( -1, 0 ), "negation", "-f" );
    for( double l : { -2.0, 0.0, 0.5, 4.0 } )
    {
      same( f * T( l ), scaled( l, 0 ), "multiplication", cat( "f*", l ) );
      same( T( l ) * f, scaled( l, 0 ), "multiplication", cat( l, "*f" ) );
      same( f + T( l ), scaled( 1, l ), "scalar", cat( "f+", l ) );
      same( f - T( l ), scaled( 1, -l ), "scalar", cat( "f-", l ) );
      { auto g = f; g += T( l ); same( g, scaled( 1, l ), "scalar", cat( "f+=", l ) ); g -= T( l ); same( g, n, "scalar", cat( "f+=", l, " and f-=", l ) ); }
      { auto g = f + T( l ); g.abs(); same( g, absolute( scaled( 1, l ) ), "absolute", cat( "|f+", l, "|" ) ); }
      if( l != 0 ) same( f / T( l ), scaled( 1 / l, 0 ), "division", cat( "f/", l ) );
      if( l != 0 && !n.empty() ) H().check( f != f + T( l ) && !( f == f + T( l ) ), "equality", cat( "f and f+", l, " are different" ) );
    }
    bool thrown = false;
    try { f / T( 0 ); } catch( std::exception& ) { thrown = true; }
    H().check( thrown, "division", "division by zero has to be rejected" );
    { auto g = f; g.abs(); same( g, absolute( n ), "absolute", "|f|" ); }
    same( f, n, "arguments", "f afterwards" );
    H().check( f == f && !( f != f ), "equality", "f should be equal to itself" );
    // Additional nodes do not change the function
    auto m = n;
    for( auto it = n.begin(); it != n.end() && std::next( it ) != n.end(); ++it )
    {
      auto x = ( it->first + std::next( it )->first ) / 2;
      m[x] = at( n, x );
    }
    bool crossing = false;
    for( auto it = n.begin(); it != n.end() && std::next( it ) != n.end(); ++it ) crossing = crossing || it->second * std::next( it )->second < 0;
    if( !crossing ) H().check( f == make<T>( m ) && make<T>( m ) == f, "equality", "f should be equal to itself with additional nodes" );

    std::vector<T> domain, image;
    f.domain( std::back_inserter( domain ) );
    f.image( std::back_inserter( image ) );
    bool ok = domain.size() == image.size() && std::is_sorted( domain.begin(), domain.end() );
    for( std::size_t i = 0; ok && i < domain.size(); i++ ) ok = close( image[i], at( n, domain[i] ), 1e-5 );
    for( auto&& x : n ) ok = ok && std::count( domain.begin(), domain.end(), T( x.first ) ) == 1;
    H().check( ok, "domain", "domain and image are wrong" );

    if( !n.empty() )
    {
      std::vector<std::pair<T, T>> v( 2, { T( n.begin()->first ), T( 1 ) } );
      thrown = false;
      try { PiecewiseLinearFunction<T>( v.begin(), v.end() ); } catch( std::exception& ) { thrown = true; }
      H().check( thrown, "duplicates", "duplicate nodes have to be rejected" );
    }
    H().trace();
    H().sample();
  } );
}

template <class T> void binary( const Nodes& a, const Nodes& b, const Nodes* c, const char* name )
{
  H().setCase( cat( name, " ", origin, " ", width, ": ", show( a ), "| ", show( b ), c ? "| " + show( *c ) : "" ) );
  H().state();
  H().guarded( "binary", [&]
  {
    auto f = make<T>( a ), g = make<T>( b );
    auto sum = combine( a, b, 1, 1 ), difference = combine( a, b, 1, -1 );
    if( !c )
    {
      same( f + g, sum, "sum", "f+g" );
      same( f - g, difference, "difference", "f-g" );
      { auto h = f + g; h.abs(); same( h, absolute( sum ), "absolute", "|f+g|" ); }
      { auto h = f - g; h.abs(); same( h, absolute( difference ), "absolute", "|f-g|" ); }
      { auto h = f; h += g; h -= g; same( h, a, "difference", "f+g-g" ); h -= f; h *= T( 2 ); same( h, combine( a, a, 1, -1 ), "difference", "f+g-g-f" ); }
      { auto h = f; h -= g; h *= T( -2 ); same( h, combine( a, b, -2, 2 ), "multiplication", "(f-g)*(-2)" ); }
      same( f, a, "arguments", "f afterwards" );
      same( g, b, "arguments", "g afterwards" );
      bool equal = true;
      for( auto&& x : difference ) equal = equal && x.second == 0;
      if( !equal ) H().check( !( f == g ) && f != g && g != f, "equality", "f and g are different" );
    }
    else
    {
      auto h = make<T>( *c );
      same( f + g + h, combine( sum, *c, 1, 1 ), "triple", "f+g+h" );
      same( f - ( g + h ), combine( a, combine( b, *c, 1, 1 ), 1, -1 ), "triple", "f-(g+h)" );
      auto s = ( f + g + h ) / T( 4 );
      same( f - s, combine( a, combine( sum, *c, 0.25, 0.25 ), 1, -1 ), "triple", "f-(f+g+h)/4" );
    }
    H().trace();
  } );
}

// Functions with different domains: only the values at the nodes are defined
template <class T> void different( const Nodes& a, const Nodes& b, const char* name )
{
  H().setCase( cat( name, " domains ", origin, " ", width, ": ", show( a ), "| ", show( b ) ) );
  H().state();
  H().guarded( "different", [&]
  {
    auto f = make<T>( a ), g = make<T>( b );
    auto s = f + g, d = f - g;
    for( auto n : { &a, &b } )
      for( auto&& x : *n )
      {
        double e = at( a, x.first ) + at( b, x.first );
        H().check( close( s( T( x.first ) ), e, 1e-5 ), "node", cat( "f+g at ", x.first, " should be ", e, ", got ", s( T( x.first ) ) ) );
        e = at( a, x.first ) - at( b, x.first );
        H().check( close( d( T( x.first ) ), e, 1e-5 ), "node", cat( "f-g at ", x.first, " should be ", e, ", got ", d( T( x.first ) ) ) );
      }
    H().step( 2 );
    H().trace();
  } );
}

// Families of functions with many nodes
static std::vector<Nodes> patterns( std::size_t limit )
{
  std::vector<Nodes> r;
  for( std::size_t n = 5; n <= limit; n++ )
  {
    Nodes up, zigzag, sparse, hill, steps;
    for( std::size_t i = 0; i < n; i++ )
    {
      double x = double( i );
      up[x] = x - 2;
      zigzag[x] = i % 2 ? -1 - double( i % 4 ) : 2;
      if( i % 3 != 1 || i + 1 == n ) sparse[x] = double( i * 7 % 5 );
      hill[x] = double( std::min( i, n - 1 - i ) );
      steps[x] = double( i / 2 % 3 ) - 1;
    }
    for( auto&& f : { up, zigzag, sparse, hill, steps } ) r.push_back( f );
  }
  return r;
}

void explore()
{
  auto large = patterns( H().thorough ? 30 : 16 );
  for( auto&& n : large ) if( H().mine() ) unary<double>( n, "double" );
  for( auto&& a : large ) for( auto&& b : large )
  {
    if( !H().mine() ) continue;
    if( a.rbegin()->first == b.rbegin()->first ) binary<double>( a, b, nullptr, "double" );
    else different<double>( a, b, "double" );
  }

  // All functions whose nodes are a subset of 0, ..., n-1
  const double NONE = 99;
  auto all = [&] ( std::size_t n, const std::vector<double>& values, bool ends )
  {
    std::vector<Nodes> r;
    auto v = values;
    v.push_back( NONE );
    forAllVectors( n, unsigned( v.size() ), [&] ( const std::vector<unsigned>& x )
    {
      if( ends && ( v[ x.front() ] == NONE || v[ x.back() ] == NONE ) ) return;
      Nodes c;
      for( std::size_t i = 0; i < n; i++ ) if( v[ x[i] ] != NONE ) c[ origin + width * double( i ) ] = v[ x[i] ];
      r.push_back( c );
    } );
    return r;
  };
  // Nodes elsewhere, very close ones and distant ones
  for( auto&& x : { std::make_pair( -5.25, 0.125 ), std::make_pair( 0.0, std::ldexp( 1, -30 ) ), std::make_pair( 3.0, std::ldexp( 1, -16 ) ), std::make_pair( -1024.0, 64.0 ), std::make_pair( 0.0, std::ldexp( 1, 30 ) ) } )
  {
    std::tie( origin, width ) = x;
    for( auto&& n : all( 3, { -2, 0, 1, 3 }, false ) ) if( H().mine() ) unary<double>( n, "double" );
    auto F = all( 3, { -2, 0, 1, 3 }, true );
    for( auto&& a : F ) for( auto&& b : F ) if( H().mine() ) binary<double>( a, b, nullptr, "double" );
    F = all( 3, { -1, 2 }, false );
    for( auto&& a : F ) for( auto&& b : F ) if( H().mine() ) different<double>( a, b, "double" );
  }
  origin = 0;
  width  = 1;

  for( auto&& n : all( H().thorough ? 5 : 4, { -2, -1, 0, 1, 3 }, false ) )
  {
    if( !H().mine() ) continue;
    unary<double>( n, "double" );
    unary<float>( n, "float" );
  }
  auto F = all( 3, { -2, -1, 0, 1, 3 }, true );
  for( auto&& a : F ) for( auto&& b : F )
  {
    if( !H().mine() ) continue;
    binary<double>( a, b, nullptr, "double" );
    if( H().thorough ) binary<float>( a, b, nullptr, "float" );
  }
  F = all( 4, H().thorough ? std::vector<double>{ -1, 0, 2 } : std::vector<double>{ -1, 2 }, true );
  for( auto&& a : F ) for( auto&& b : F )
  {
    if( !H().mine() ) continue;
    binary<double>( a, b, nullptr, "double" );
  }
  F = all( 3, H().thorough ? std::vector<double>{ -1, 0, 2 } : std::vector<double>{ -1, 2 }, true );
  for( auto&& a : F ) for( auto&& b : F ) for( auto&& c : F )
  {
    if( !H().mine() ) continue;
    binary<double>( a, b, &c, "double" );
  }
  F = all( 3, { -1, 2 }, false );
  for( auto&& a : F ) for( auto&& b : F )
  {
    if( !H().mine() ) continue;
    different<double>( a, b, "double" );
  }
}
