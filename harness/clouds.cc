// Point clouds: all short histories of operations, and all small clouds in
// different text layouts.

#include "common.hh"

#include <aleph/containers/PointCloud.hh>
#include <aleph/geometry/Point.hh>

#include <fstream>
#include <set>
#include <sstream>

using namespace vf;

using Rows = std::vector<std::vector<double>>;

template <class T> using Cloud = aleph::containers::PointCloud<T>;

struct Model
{
  std::size_t n = 0, d = 0;
  Rows rows;
  bool operator==( const Model& o ) const { return n == o.n && d == o.d && rows == o.rows; }
};

static std::string show( const Rows& r )
{
  std::ostringstream s;
  for( auto&& p : r ) { s << "("; for( double x : p ) s << x << " "; s << ")"; }
  return s.str();
}

template <class T> static void compare( const Cloud<T>& c, const Model& m, const char* key )
{
  H().step();
  bool ok = c.size() == m.n && c.dimension() == m.d && c.empty() == ( m.n == 0 );
  for( std::size_t i = 0; ok && i < m.n; i++ )
  {
    std::vector<T> p( m.rows[i].begin(), m.rows[i].end() ), q;
    c.get( i, std::back_inserter( q ) );
    ok = p == c[i] && p == q && std::equal( p.begin(), p.end(), c.data() + i * m.d );
  }
  H().check( ok, key, cat( "cloud with ", c.size(), " points differs from ", m.n, "x", m.d, " ", show( m.rows ) ) );
}

template <class F> static void rejected( const char* key, F f )
{
  bool thrown = false;
  try { f(); } catch( std::runtime_error& ) { thrown = true; }
  H().step();
  H().check( thrown, key, "invalid operation is not rejected" );
}

// Histories -----------------------------------------------------------

struct State { Cloud<int> a, b; Model ma, mb; };

static const unsigned Operations = 18;

static void apply( unsigned op, State& s, unsigned step )
{
  auto create = [] ( Cloud<int>& c, Model& m, std::size_t n, std::size_t d ) { c = Cloud<int>( n, d ); m.n = n; m.d = d; m.rows = Rows( n, std::vector<double>( d ) ); };
  auto set = [&] ( Cloud<int>& c, Model& m, std::size_t i )
  {
    std::vector<int> p;
    for( std::size_t k = 0; k < m.d; k++ ) p.push_back( int( 10 * step + k + 1 ) );
    if( i < m.n )
    {
      if( m.d == 1 ) c.set( i, { p[0] } );
      else if( m.d == 2 ) c.set( i, { p[0], p[1] } );
      else c.set( i, p.begin(), p.end() );
      m.rows[i] = std::vector<double>( p.begin(), p.end() );
    }
    else rejected( "set-index", [&] { c.set( i, p.begin(), p.end() ); } );
  };
  auto add = [&] ( Cloud<int>& x, Model& mx, const Cloud<int>& y, const Model& my )
  {
    if( mx.d != my.d ) { rejected( "concatenate-dimension", [&] { x = x + y; } ); return; }
    Model r = mx;
    r.n += my.n;
    r.rows.insert( r.rows.end(), my.rows.begin(), my.rows.end() );
    x  = x + y;
    mx = r;
  };
  switch( op )
  {
  case 0: create( s.a, s.ma, 1, 2 ); break;
  case 1: create( s.a, s.ma, 2, 1 ); break;
  case 2: create( s.a, s.ma, 2, 3 ); break;
  case 3: create( s.b, s.mb, 1, 2 ); break;
  case 4: create( s.b, s.mb, 0, 2 ); break;
  case 5: set( s.a, s.ma, 0 ); break;
  case 6: set( s.a, s.ma, 1 ); break;
  case 7: set( s.b, s.mb, 0 ); break;
  case 8: s.b = s.a; s.mb = s.ma; break;
  case 9: s.a = s.b; s.ma = s.mb; break;
  case 10: s.b = std::move( s.a ); s.a = Cloud<int>(); s.mb = s.ma; s.ma = Model(); break;
  case 11: { Cloud<int> c( s.a ); set( c, s.ma, 0 ); if( s.ma.n ) { s.a = c; } break; }
  case 12: swap( s.a, s.b ); std::swap( s.ma, s.mb ); break;
  case 13: add( s.a, s.ma, s.b, s.mb ); break;
  case 14: add( s.a, s.ma, s.a, Model( s.ma ) ); break;
  case 15: add( s.b, s.mb, s.a, s.ma ); break;
  case 16: { Cloud<int>& self = s.a; s.a = self; break; }
  case 17: { Cloud<int> c( std::move( s.b ) ); s.b = c; break; }
  }
}

static void check( const State& s )
{
  compare( s.a, s.ma, "history" );
  compare( s.b, s.mb, "history" );
  H().check( ( s.a == s.b ) == ( s.ma == s.mb ), "equality", "comparison differs from contents" );
  for( auto c : { &s.a, &s.b } )
  {
    rejected( "get-index", [&] { std::vector<int> p; c->get( c->size(), std::back_inserter( p ) ); } );
    rejected( "get-index", [&] { ( *c )[c->size() + 1]; } );
    if( !c->empty() )
    {
      std::vector<int> p( c->dimension() + 1 ), q( c->dimension() - 1 );
      auto d = const_cast<Cloud<int>*>( c );
      rejected( "set-dimension", [&] { d->set( 0, p.begin(), p.end() ); } );
      rejected( "set-dimension", [&] { d->set( 0, q.begin(), q.end() ); } );
    }
  }
}

static void histories( unsigned depth )
{
  forAllVectors( depth, Operations, [&] ( const std::vector<unsigned>& ops )
  {
    if( !H().mine() ) return;
    H().setCase( "history " + str( ops ) );
    H().state();
    H().guarded( "history", [&]
    {
      State s;
      for( unsigned i = 0; i < depth; i++ ) apply( ops[i], s, i + 1 );
      check( s );
    } );
    H().trace();
  } );
}

// Text ----------------------------------------------------------------

static const unsigned Separators = 8, Layouts = 6;

static std::string number( double d ) { std::ostringstream s; s << d; return s.str(); }

static std::string text( const Rows& rows, unsigned separator, unsigned layout )
{
  static const char* sep[] = { " ", "\t", ",", ";", ":", ", ", "  \t ", " ; " };
  std::ostringstream s;
  if( layout == 1 ) s << "# 1 2 3\n\n";
  if( layout == 2 ) s << "  # comment\n";
  for( std::size_t i = 0; i < rows.size(); i++ )
  {
    if( layout == 2 ) s << "   ";
    for( std::size_t j = 0; j < rows[i].size(); j++ ) s << ( j ? sep[separator] : "" ) << number( rows[i][j] );
    bool last = i + 1 == rows.size();
    switch( layout )
    {
    case 0: s << "\n"; break;
    case 1: s << "\n# comment\n"; break;
    case 2: s << "  \n \n"; break;
    case 3: if( !last ) s << "\n"; break;
    case 4: s << "\r\n"; break;
    case 5: if( last ) s << "\n\n# comment"; else s << "\n\n"; break;
    }
  }
  return s.str();
}

template <class T> static void file( const Rows& rows, unsigned separator, unsigned layout )
{
  auto t = text( rows, separator, layout );
  H().setCase( "text\n" + t );
  H().state();
  H().guarded( "load", [&]
  {
    Model m;
    m.n = rows.size();
    m.d = rows.empty() ? 0 : rows[0].size();
    m.rows = rows;
    std::istringstream in( t );
    auto c = aleph::containers::load<T>( in );
    compare( c, m, "load" );
    auto name = H().scratch + cat( "/cloud-", H().shard, ".txt" );
    std::ofstream( name ) << t;
    auto d = aleph::containers::load<T>( name );
    compare( d, m, "load-file" );
    H().check( c == d, "equality", "equal clouds are different" );
    std::stringstream out;
    out << c;
    compare( aleph::containers::load<T>( out ), m, "round-trip" );
  } );
  H().trace();
}

template <class T> static void files( const std::vector<double>& values )
{
  unsigned k = 0;
  for( unsigned n = 0; n <= 3; n++ ) for( unsigned d = 1; d <= 3; d++ )
  {
    if( n == 0 && d > 1 ) continue;
    unsigned count = n * d > 6 ? 2u : unsigned( values.size() );
    forAllVectors( n * d, count, [&] ( const std::vector<unsigned>& v )
    {
      Rows r( n, std::vector<double>( d ) );
      for( unsigned i = 0; i < n * d; i++ ) r[i / d][i % d] = values[v[i]];
      for( unsigned s = 0; s < Separators; s++ ) for( unsigned l = 0; l < Layouts; l++ )
      {
        k++;
        if( n * d > 3 && k % ( H().thorough ? 5 : n * d > 4 ? 61 : 13 ) ) continue;
        if( H().mine() ) file<T>( r, s, l );
      }
    } );
  }
}

// All rows of different lengths
static void ragged()
{
  forAllVectors( 3, 3, [&] ( const std::vector<unsigned>& l )
  {
    for( unsigned h = 2; h <= 3; h++ )
    {
      Rows r;
      bool equal = true;
      for( unsigned y = 0; y < h; y++ ) { r.push_back( std::vector<double>( l[y] + 1, 1 ) ); equal = equal && l[y] == l[0]; }
      if( equal ) continue;
      for( unsigned s = 0; s < Separators; s++ )
        for( unsigned layout = 0; layout < Layouts; layout++ )
        {
          if( !H().mine() ) continue;
          auto t = text( r, s, layout );
          H().setCase( "invalid text\n" + t );
          H().state();
          rejected( "load-dimension", [&] { std::istringstream in( t ); aleph::containers::load<double>( in ); } );
        }
    }
  } );
}

// Points --------------------------------------------------------------

static void points()
{
  using Point = aleph::geometry::Point<double>;
  std::vector<std::vector<double>> all;
  for( unsigned d = 0; d <= 3; d++ )
    forAllVectors( d, 3, [&] ( const std::vector<unsigned>& v ) { all.push_back( std::vector<double>( v.begin(), v.end() ) ); } );
  for( auto&& p : all ) for( auto&& q : all )
  {
    if( !H().mine() ) continue;
    H().setCase( cat( "points ", str( p ), " ", str( q ) ) );
    H().state();
    H().guarded( "points", [&]
    {
      Point a( p.begin(), p.end() ), b( q.begin(), q.end() );
      H().check( ( a == b ) == ( p == q ) && ( a != b ) == ( p != q ), "point-equality", "comparison differs from coordinates" );
      H().check( ( a < b ) == ( p < q ), "point-order", "order differs from coordinates" );
      H().check( a.dimension() == p.size() && a.size() == p.size() && std::vector<double>( a.begin(), a.end() ) == p, "point-coordinates", "coordinates differ" );
      std::ostringstream s, e;
      s << a;
      for( std::size_t i = 0; i < p.size(); i++ ) e << ( i ? " " : "" ) << p[i];
      H().check( s.str() == e.str(), "point-output", "output is " + s.str() );
      if( p.size() == 2 )
      {
        Point l = { p[0], p[1] };
        H().check( l == a && l.dimension() == 2, "point-coordinates", "point made from a list of coordinates differs" );
      }
      else if( p.size() == 3 )
      {
        Point l = { p[0], p[1], p[2] };
        H().check( l == a && l.dimension() == 3, "point-coordinates", "point made from a list of coordinates differs" );
      }
      if( !p.empty() ) { *a.begin() = 7; H().check( *const_cast<const Point&>( a ).begin() == 7, "point-coordinates", "coordinate is not stored" ); }
      H().step();
    } );
  }
}

// Larger clouds and points of larger dimension
static void large()
{
  for( unsigned n = 1; n <= ( H().thorough ? 120u : 40u ); n += n < 12 ? 1 : 4 )
    for( unsigned d = 1; d <= 12; d++ )
    {
      if( ( n < 4 && d < 4 ) || !H().mine() ) continue;
      Rows r( n, std::vector<double>( d ) );
      for( unsigned i = 0; i < n; i++ ) for( unsigned j = 0; j < d; j++ ) r[i][j] = double( ( i * 37 + j * 11 ) % 101 ) - 50;
      unsigned s = ( n + d ) % Separators, l = ( n + 2 * d ) % Layouts;
      file<int>( r, s, l );
      for( auto&& x : r ) for( auto&& y : x ) y /= 4;
      file<double>( r, s, ( l + 1 ) % Layouts );
      file<float>( r, ( s + 1 ) % Separators, l );
      H().setCase( cat( "cloud ", n, "x", d ) );
      H().state();
      H().guarded( "large", [&]
      {
        // Points are set from the last to the first, in parts and at once
        Cloud<double> c( n, d ), a( n / 2, d ), b( n - n / 2, d );
        Model m;
        m.n = n; m.d = d; m.rows = r;
        for( unsigned i = n; i-- > 0; )
        {
          c.set( i, r[i].begin(), r[i].end() );
          if( i < n / 2 ) a.set( i, r[i].begin(), r[i].end() ); else b.set( i - n / 2, r[i].begin(), r[i].end() );
        }
        compare( c, m, "large-set" );
        auto e = a + b;
        compare( e, m, "large-concatenate" );
        H().check( c == e, "large-equality", "equal clouds are different" );
        for( unsigned i = 0; i < n; i++ )
        {
          auto q = r[i];
          q[ i % d ] += 1;
          e.set( i, q.begin(), q.end() );
          H().check( !( c == e ), "large-equality", cat( "change of point ", i, " is not noticed" ) );
          e.set( i, r[i].begin(), r[i].end() );
        }
        compare( e, m, "large-set" );
        rejected( "set-index", [&] { c.set( n, r[0].begin(), r[0].end() ); } );
      } );
      H().trace();
    }
  using Point = aleph::geometry::Point<double>;
  for( unsigned d = 4; d <= 30; d++ ) for( unsigned i = 0; i < d; i++ ) for( int delta = -1; delta <= 1; delta++ )
  {
    if( !H().mine() ) continue;
    H().setCase( cat( "points of dimension ", d, " different at ", i, " by ", delta ) );
    H().state();
    std::vector<double> p, q;
    for( unsigned j = 0; j < d; j++ ) { p.push_back( j * 7 % 5 ); q.push_back( p[j] + ( j == i ? delta : j > i ? -delta : 0 ) ); }
    Point a( p.begin(), p.end() ), b( q.begin(), q.end() ), shorter( p.begin(), p.begin() + i );
    H().check( ( a == b ) == ( delta == 0 ) && ( a != b ) == ( delta != 0 ) && ( a < b ) == ( p < q ) && !( a == shorter ), "point-order", "comparison differs from coordinates" );
    H().step();
  }
}

void explore()
{
  large();
  for( unsigned depth = 0; depth <= ( H().thorough ? 5u : 4u ); depth++ ) histories( depth );
  files<double>( { -1, 0.5, 1e-05, 2e+10 } );
  files<float>( { 3, -0.25 } );
  files<int>( { 3, -12 } );
  ragged();
  points();
}
