// Step functions: all functions on a few unit intervals, their sums and short
// sequences of operations.

#include "common.hh"

#include <aleph/math/StepFunction.hh>

#include <cmath>
#include <limits>
#include <set>
#include <sstream>

using namespace vf;
using namespace aleph::math;

static const double NONE = 99;

// The i-th interval starts at position( i )
static double origin = 0, width = 1;

static double position( double i ) { return origin + width * i; }

// Values on the unit intervals, and which intervals exist
using Cells = std::vector<double>;

static double value( const Cells& c, std::size_t i ) { return i < c.size() && c[i] != NONE ? c[i] : 0; }

template <class T> StepFunction<T> make( const Cells& c, bool reversed = false )
{
  StepFunction<T> f;
  for( std::size_t j = 0; j < c.size(); j++ )
  {
    std::size_t i = reversed ? c.size() - 1 - j : j;
    if( c[i] != NONE ) f.add( T( position( i ) ), T( position( i + 1 ) ), T( c[i] ) );
  }
  return f;
}

static std::string show( const Cells& c )
{
  std::string s;
  for( auto v : c ) s += v == NONE ? "_ " : cat( v, " " );
  return s;
}

// Compares a function with the expected values on the intervals, in their
// interior and outside
template <class T> void same( const StepFunction<T>& f, const std::vector<double>& e, const char* key, const std::string& what )
{
  const double eps = sizeof( T ) == 4 ? 1e-5 : 1e-9;
  double integral = 0, absolute = 0;
  for( std::size_t i = 0; i < e.size(); i++ )
  {
    integral += e[i];
    absolute += std::abs( e[i] );
    for( double o : { 0.25, 0.5, 0.875 } )
      H().check( close( f( T( position( i + o ) ) ), e[i], eps ), key, cat( what, ": value at ", i + o, " should be ", e[i], ", got ", f( T( position( i + o ) ) ) ) );
  }
  H().check( f( T( position( -0.5 ) ) ) == 0 && f( T( position( e.size() + 0.5 ) ) ) == 0, key, what + ": value outside of all intervals should be zero" );
  integral *= width;
  absolute *= width;
  H().check( close( f.integral() / width, integral / width, eps ), key, cat( what, ": integral should be ", integral, ", got ", f.integral() ) );
  H().check( close( f.integral_p( T( 1 ) ) / width, absolute / width, eps ), key, cat( what, ": integral of absolute value should be ", absolute, ", got ", f.integral_p( T( 1 ) ) ) );
  H().step();
}

static double endpoint( const Cells& c, std::size_t i )
{
  double l = i ? value( c, i - 1 ) : 0, u = value( c, i );
  return std::abs( u ) > std::abs( l ) ? u : l;
}

// Known finding: the sum of two functions uses their values at the end points
// of an interval for the whole interval whenever both functions have the same
// value at both end points, regardless of their values within the interval.
static std::vector<double> endpointSum( const Cells& a, const Cells& b, double sign )
{
  std::set<std::size_t> points;
  for( auto c : { &a, &b } )
    for( std::size_t i = 0; i < c->size(); i++ )
      if( ( *c )[i] != NONE ) { points.insert( i ); points.insert( i + 1 ); }
  auto n = std::max( a.size(), b.size() );
  std::vector<double> r( n );
  for( std::size_t i = 0; i < n; i++ ) r[i] = value( a, i ) + sign * value( b, i );
  bool exact = true;
  for( auto it = points.begin(); it != points.end() && std::next( it ) != points.end(); ++it )
  {
    auto p = *it, q = *std::next( it );
    double y1 = exact ? endpoint( a, p ) : value( a, p ), y2 = exact ? endpoint( b, p ) : value( b, p );
    exact = y1 == endpoint( a, q ) && y2 == endpoint( b, q );
    if( exact )
      for( auto i = p; i < q; i++ ) r[i] = y1 + sign * y2;
  }
  return r;
}

// Whether a linear combination of functions is subject to the finding
static bool fragile( const std::vector<const Cells*>& cells, const std::vector<double>& signs )
{
  std::size_t n = 0;
  for( auto c : cells ) n = std::max( n, c->size() );
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = i + 1; j <= n; j++ )
    {
      double l = 0, r = 0, inner = 0;
      for( std::size_t k = 0; k < cells.size(); k++ )
      {
        l += signs[k] * endpoint( *cells[k], i );
        r += signs[k] * endpoint( *cells[k], j );
        inner += signs[k] * value( *cells[k], i );
      }
      if( l == r && l != inner ) return true;
    }
  return false;
}

template <class T> bool matches( const StepFunction<T>& f, const std::vector<double>& e )
{
  const double eps = sizeof( T ) == 4 ? 1e-5 : 1e-9;
  for( std::size_t i = 0; i < e.size(); i++ )
    for( double o : { 0.25, 0.5, 0.875 } )
      if( !close( f( T( position( i + o ) ) ), e[i], eps ) ) return false;
  double integral = 0;
  for( auto v : e ) integral += v;
  return f( T( position( -0.5 ) ) ) == 0 && f( T( position( e.size() + 0.5 ) ) ) == 0 && close( f.integral() / width, integral, eps );
}

template <class F> std::vector<double> map( std::size_t n, F f )
{
  std::vector<double> r;
  for( std::size_t i = 0; i < n; i++ ) r.push_back( f( i ) );
  return r;
}

template <class T> void unary( const Cells& c, const char* name )
{
  H().setCase( cat( name, " ", origin, " ", width, ": ", show( c ) ) );
  H().state();
  H().guarded( "unary", [&]
  {
    auto n = c.size();
    auto f = make<T>( c );
    auto v = [&] ( std::size_t i ) { return value( c, i ); };
    same( f, map( n, v ), "function", "function" );
    same( make<T>( c, true ), map( n, v ), "function", "function added in reverse order" );
    for( std::size_t i = 0; i <= n; i++ )
    {
      double l = i ? value( c, i - 1 ) : 0, r = value( c, i ), g = f( T( position( i ) ) );
      H().check( std::abs( g ) == std::max( std::abs( l ), std::abs( r ) ) && ( g == l || g == r ), "breakpoint", cat( "value at ", i, " should be the one with largest absolute value, got ", g ) );
    }
    double largest = 0, smallest = INFINITY;
    std::vector<T> domain, image;
    std::vector<T> edomain, eimage;
    for( std::size_t i = 0; i < n; i++ )
      if( c[i] != NONE )
      {
        largest = eimage.empty() ? c[i] : std::max( largest, c[i] );
        smallest = std::min( smallest, c[i] );
        edomain.push_back( T( position( i ) ) );
        edomain.push_back( T( position( i + 1 ) ) );
        eimage.push_back( T( c[i] ) );
      }
    f.domain( std::back_inserter( domain ) );
    f.image( std::back_inserter( image ) );
    H().check( domain == edomain && image == eimage && f.indicatorFunctions().size() == eimage.size(), "domain", "domain or image are wrong" );
    H().check( f.max() == largest && f.sup() == largest, "maximum", cat( "maximum should be ", largest, ", got ", f.max() ) );

    same( -f, map( n, [&] ( std::size_t i ) { return -v( i ); } ), "negation", "-f" );
    for( double l : { -2.0, 0.0, 0.5, 4.0 } )
    {
      same( f * T( l ), map( n, [&] ( std::size_t i ) { return l * v( i ); } ), "multiplication", cat( "f*", l ) );
      same( T( l ) * f, map( n, [&] ( std::size_t i ) { return l * v( i ); } ), "multiplication", cat( l, "*f" ) );
      same( f + T( l ), map( n, [&] ( std::size_t i ) { return c[i] == NONE ? 0 : l + v( i ); } ), "scalar", cat( "f+", l ) );
      same( f - T( l ), map( n, [&] ( std::size_t i ) { return c[i] == NONE ? 0 : v( i ) - l; } ), "scalar", cat( "f-", l ) );
      if( l != 0 ) same( f / T( l ), map( n, [&] ( std::size_t i ) { return v( i ) / l; } ), "division", cat( "f/", l ) );
    }
    bool thrown = false;
    try { f / T( 0 ); } catch( std::exception& ) { thrown = true; }
    H().check( thrown, "division", "division by zero has to be rejected" );
    { auto g = f; g.abs(); same( g, map( n, [&] ( std::size_t i ) { return std::abs( v( i ) ); } ), "absolute", "abs" ); }
    for( double p : { 1.0, 2.0, 3.0 } ) { auto g = f; g.pow( T( p ) ); same( g, map( n, [&] ( std::size_t i ) { return c[i] == NONE ? 0 : std::pow( v( i ), p ); } ), "power", cat( "power ", p ) ); }

    if( std::set<T>( image.begin(), image.end() ).size() > 1 && smallest >= 0 )
      for( double a : { 0.0, -1.0, 2.0 } )
        for( double b : { 1.0, 4.0 } )
        {
          if( a == 0 && b == 1 ) same( normalize( f ), map( n, [&] ( std::size_t i ) { return c[i] == NONE ? 0 : v( i ) / largest; } ), "normalisation-default", "normalised" );
          if( b == 1 )           same( normalize( f, T( a ) ), map( n, [&] ( std::size_t i ) { return c[i] == NONE ? 0 : a + ( b - a ) * v( i ) / largest; } ), "normalisation-default", cat( "normalised from ", a ) );
          same( normalize( f, T( a ), T( b ) ), map( n, [&] ( std::size_t i ) { return c[i] == NONE ? 0 : a + ( b - a ) * v( i ) / largest; } ), "normalisation", cat( "normalised to ", a, ",", b ) );
        }

    for( auto&& i : f.indicatorFunctions() )
    {
      auto g = i / T( 2 );
      auto h = i * T( 2 );
      H().check( g.y() * 2 == i.y() && h.y() == i.y() * 2 && g.a() == i.a() && g.b() == i.b(), "indicator", "arithmetic of indicator functions" );
      H().check( i.pow( T( 2 ) ).y() == i.y() * i.y(), "indicator", "power of indicator functions" );
    }

    std::stringstream stream;
    stream.precision( 17 );
    stream << f;
    StepFunction<T> g;
    stream >> g;
    same( g, map( n, v ), "input-output", "function after writing and reading it" );
    H().trace();
    H().sample();
  } );
}

template <class T> void sums( const Cells& a, const Cells& b, const Cells* c, const char* name )
{
  H().setCase( cat( name, " ", origin, " ", width, ": ", show( a ), "| ", show( b ), c ? "| " + show( *c ) : "" ) );
  H().state();
  H().guarded( "sum", [&]
  {
    auto n = std::max( a.size(), b.size() );
    auto f = make<T>( a ), g = make<T>( b );
    auto u = [&] ( std::size_t i ) { return value( a, i ); };
    auto v = [&] ( std::size_t i ) { return value( b, i ); };
    if( !c )
    {
      bool known = false;
      for( double sign : { 1.0, -1.0 } )
      {
        auto h = sign > 0 ? f + g : f - g;
        auto e = map( n, [&] ( std::size_t i ) { return u( i ) + sign * v( i ); } );
        auto k = endpointSum( a, b, sign );
        if( e != k && matches( h, k ) ) { H().fail( "sum-equal-endpoints", cat( "sum or difference of ", show( a ), "and ", show( b ), "has wrong values" ) ); known = true; }
        else same( h, e, sign > 0 ? "sum" : "difference", sign > 0 ? "f+g" : "f-g" );
      }
      if( known ) return;
      StepFunction<T> h;
      bool nested = true;
      for( auto signs : std::vector<std::vector<double>>{ {1,0}, {0,1}, {1,1}, {1,-1} } )
        nested = nested && !fragile( { &a, &b }, signs );
      if( nested )
      {
        h = f;
        h += g;
        h -= g;
        same( h, map( n, u ), "difference", "f+g-g" );
        h += f;
        h /= T( 2 );
        same( h, map( n, u ), "sum", "(f+g-g+f)/2" );
      }
      h = ( f - g ).abs();
      same( h, map( n, [&] ( std::size_t i ) { return std::abs( u( i ) - v( i ) ); } ), "absolute", "|f-g|" );
      h = ( f + g ) * T( -3 );
      same( h, map( n, [&] ( std::size_t i ) { return -3 * ( u( i ) + v( i ) ); } ), "multiplication", "(f+g)*(-3)" );
      // Functions may not change
      same( f, map( n, u ), "arguments", "f afterwards" );
      same( g, map( n, v ), "arguments", "g afterwards" );
      // Sum in both orders and at the boundaries, which are closed
      auto s = f + g, t = g + f;
      for( std::size_t i = 0; i <= n; i++ )
      {
        H().check( s( T( position( i ) ) ) == t( T( position( i ) ) ), "symmetric", cat( "f+g and g+f differ at ", i ) );
      }
    }
    else
    {
      // Nested sums are only checked if the finding does not affect them
      for( auto signs : std::vector<std::vector<double>>{ {1,0,0}, {0,1,0}, {0,0,1}, {1,1,0}, {0,1,-1}, {1,1,1} } )
        if( fragile( { &a, &b, c }, signs ) ) return;
      auto w = [&] ( std::size_t i ) { return value( *c, i ); };
      n = std::max( n, c->size() );
      auto h = make<T>( *c );
      same( f + g + h, map( n, [&] ( std::size_t i ) { return u( i ) + v( i ) + w( i ); } ), "triple", "f+g+h" );
      same( f + ( g - h ), map( n, [&] ( std::size_t i ) { return u( i ) + v( i ) - w( i ); } ), "triple", "f+(g-h)" );
      auto s = ( f + g + h ) / T( 2 );
      same( f - s, map( n, [&] ( std::size_t i ) { return u( i ) - ( u( i ) + v( i ) + w( i ) ) / 2; } ), "triple", "f-(f+g+h)/2" );
    }
    H().trace();
  } );
}

// Families of functions on many intervals: f( name, cells )
static std::vector<Cells> patterns( std::size_t limit )
{
  std::vector<Cells> r;
  for( std::size_t n = 5; n <= limit; n++ )
  {
    Cells up, down, hills, holes, wave, single( n, NONE ), blocks;
    for( std::size_t i = 0; i < n; i++ )
    {
      up.push_back( double( i + 1 ) );
      down.push_back( double( n - i ) / 2 );
      hills.push_back( double( std::min( i, n - 1 - i ) ) );
      holes.push_back( i % 3 == 1 ? NONE : double( i * 7 % 5 ) + 1 );
      wave.push_back( i % 2 ? -double( i ) : double( i ) + 2 );
      blocks.push_back( double( i / 3 ) - 1 );
    }
    single[ n - 1 ] = 4;
    for( auto&& c : { up, down, hills, holes, wave, single, blocks } ) r.push_back( c );
  }
  return r;
}

void explore()
{
  auto large = patterns( H().thorough ? 40 : 20 );
  for( auto&& c : large ) if( H().mine() ) { unary<double>( c, "double" ); unary<float>( c, "float" ); }
  large = patterns( H().thorough ? 14 : 9 );
  for( auto&& a : large ) for( auto&& b : large ) if( H().mine() ) sums<double>( a, b, nullptr, "double" );
  for( auto&& a : large ) for( auto&& b : large )
    if( H().mine() ) sums<double>( a, b, &large[ ( a.size() * 7 + b.size() ) % large.size() ], "double" );

  auto all = [&] ( std::size_t n, const std::vector<double>& values )
  {
    std::vector<Cells> r;
    forAllVectors( n, unsigned( values.size() ), [&] ( const std::vector<unsigned>& x )
    {
      Cells c;
      for( auto i : x ) c.push_back( values[i] );
      r.push_back( c );
    } );
    return r;
  };

  // Intervals elsewhere, very short and very long ones
  for( auto&& x : { std::make_pair( -5.25, 0.125 ), std::make_pair( 0.0, std::ldexp( 1, -30 ) ), std::make_pair( 3.0, std::ldexp( 1, -16 ) ), std::make_pair( -1024.0, 64.0 ), std::make_pair( 0.0, std::ldexp( 1, 30 ) ) } )
  {
    std::tie( origin, width ) = x;
    for( std::size_t n = 1; n <= 3; n++ )
      for( auto&& c : all( n, { NONE, -2, 0, 1, 3 } ) ) if( H().mine() ) unary<double>( c, "double" );
    for( std::size_t n = 1; n <= 2; n++ )
      for( auto&& a : all( n, { NONE, -1, 0, 2 } ) ) for( auto&& b : all( n, { NONE, -1, 0, 2 } ) ) if( H().mine() ) sums<double>( a, b, nullptr, "double" );
    auto large = patterns( 6 );
    for( auto&& a : large ) for( auto&& b : large ) if( H().mine() ) sums<double>( a, b, nullptr, "double" );
  }
  origin = 0;
  width  = 1;

  for( std::size_t n = 0; n <= ( H().thorough ? 5u : 4u ); n++ )
    for( auto&& c : all( n, { NONE, -2, -1, 0, 1, 3 } ) )
    {
      if( !H().mine() ) continue;
      unary<double>( c, "double" );
      unary<float>( c, "float" );
    }
  for( std::size_t n = 1; n <= ( H().thorough ? 4u : 3u ); n++ )
  {
    auto F = all( n, { NONE, -1, 0, 1, 2 } );
    for( auto&& a : F ) for( auto&& b : F )
    {
      if( !H().mine() ) continue;
      sums<double>( a, b, nullptr, "double" );
      if( n < 3 ) sums<float>( a, b, nullptr, "float" );
    }
  }
  auto F = all( 3, { NONE, 1, 2 } );
  if( H().thorough ) F = all( 3, { NONE, -1, 1, 2 } );
  for( auto&& a : F ) for( auto&& b : F ) for( auto&& c : F )
  {
    if( !H().mine() ) continue;
    sums<double>( a, b, &c, "double" );
  }
}
