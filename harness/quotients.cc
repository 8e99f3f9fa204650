// Cones and suspensions of all small complexes.

#include "big.hh"

#include <aleph/topology/QuotientSpaces.hh>

using namespace vf;
using namespace aleph::topology;

using S  = Simplex<double, unsigned>;
using K_ = SimplicialComplex<S>;

static double joined( Mask m ) { return m == 0 ? 17.0 : 100.0 + double( m ); }

template <class W, class J> void compare( const K_& L, const Order& K, W w, J join, unsigned tips, const char* what )
{
  H().step();
  Mask all = 0;
  std::set<Mask> in( K.begin(), K.end() );
  for( Mask m : K ) all |= m;
  auto got = toWeights( L );
  H().check( got.size() == L.size(), "duplicate", cat( what, ": simplices occur more than once" ) );
  Mask fresh = 0;
  for( auto&& p : got ) fresh |= p.first & ~all;
  H().check( __builtin_popcount( fresh ) == int( tips ), "tips", cat( what, ": ", __builtin_popcount( fresh ), " new vertices" ) );
  if( __builtin_popcount( fresh ) != int( tips ) ) return;
  std::map<Mask, double> e;
  for( Mask m : K ) e[m] = w( m );
  for( auto t : verts( fresh ) )
  {
    e[ Mask(1) << t ] = join( Mask(0) );
    for( Mask m : K ) e[ m | ( Mask(1) << t ) ] = join( m );
  }
  for( auto&& p : e )
  {
    H().check( got.count( p.first ) != 0, "missing", cat( what, ": ", strMask( p.first ), " is missing" ) );
    if( got.count( p.first ) ) H().check( got[p.first] == p.second, "weight", cat( what, ": weight of ", strMask( p.first ), " should be ", p.second, ", got ", got[p.first] ) );
  }
  for( auto&& p : got ) H().check( e.count( p.first ) != 0, "extra", cat( what, ": ", strMask( p.first ), " must not be present" ) );

  // Homology of what the library returned
  Order o = toOrder( L );
  std::sort( o.begin(), o.end(), byDimension );
  Order base = K;
  std::sort( base.begin(), base.end(), byDimension );
  if( o.size() > 63 ) return;
  for( auto&& m : o ) for( Mask f : facets( m ) ) if( !got.count( f ) ) { H().fail( "closed", cat( what, ": face ", strMask( f ), " is missing" ) ); return; }
  auto b = betti( o, 5 ), k = betti( base, 4 );
  std::vector<unsigned> expected( 6, 0 );
  expected[0] = 1;
  if( tips == 2 )
  {
    expected[1] = k[0] - 1;
    for( int d = 1; d <= 4; d++ ) expected[d+1] = k[d];
  }
  H().check( b == expected, "homology", cat( what, ": Betti numbers should be ", str( expected ), ", got ", str( b ) ) );
}

template <class W> void run( const Order& K, W w )
{
  H().setCase( "complex " + strWeighted( K, w ) );
  H().state();
  H().guarded( "construction", [&]
  {
    auto C = toComplex<K_>( K, w );
    auto f = [] ( const S& s ) { return joined( toMask( s ) ); };
    auto zero = [] ( Mask ) { return 0.0; };
    if( K.empty() )
    {
      H().check( cone( C ).empty() && suspension( C ).empty() && cone( C, f ).empty() && suspension( C, f ).empty(), "empty", "cone or suspension of the empty complex is not empty" );
      H().step( 4 );
      return;
    }
    compare( cone( C ),          K, w, zero,   1, "cone" );
    compare( cone( C, f ),       K, w, joined, 1, "weighted cone" );
    compare( suspension( C ),    K, w, zero,   2, "suspension" );
    compare( suspension( C, f ), K, w, joined, 2, "weighted suspension" );
    H().trace();
    H().sample();
  } );
}

// Families of larger complexes
static void large( const std::string& name, const Big& K )
{
  H().setCase( name );
  H().state();
  H().guarded( "construction", [&]
  {
    auto w = [] ( const Face&, std::size_t i ) { return double( ( i * 7 ) % 11 ) - 5.0; };
    auto join = [] ( const Face& f ) { double x = 100; for( auto v : f ) x = 3 * x + v; return x; };
    auto C = bigComplex<K_>( K, w );
    std::set<unsigned> original;
    for( auto&& s : K ) original.insert( s.begin(), s.end() );
    for( unsigned tips = 1; tips <= 2; tips++ )
    {
      auto f = [&] ( const S& s ) { return join( toFace( s ) ); };
      auto L = tips == 1 ? cone( C, f ) : suspension( C, f );
      H().step();
      std::set<unsigned> fresh;
      for( auto&& s : L ) for( auto v : s ) if( !original.count( v ) ) fresh.insert( v );
      H().check( fresh.size() == tips, "tips", cat( fresh.size(), " new vertices instead of ", tips ) );
      std::map<Face, double> e, got;
      for( std::size_t i = 0; i < K.size(); i++ ) e[ K[i] ] = w( K[i], i );
      for( auto t : fresh )
      {
        e[ Face{ t } ] = join( {} );
        for( auto s : K ) { double x = join( s ); s.push_back( t ); std::sort( s.begin(), s.end() ); e[s] = x; }
      }
      for( auto&& s : L ) got[ toFace( s ) ] = s.data();
      H().check( got.size() == L.size(), "duplicate", "simplices occur more than once" );
      for( auto&& p : e )
      {
        H().check( got.count( p.first ) != 0, "missing", cat( str( p.first ), " is missing" ) );
        if( got.count( p.first ) ) H().check( got[p.first] == p.second, "weight", cat( "weight of ", str( p.first ), " should be ", p.second, ", got ", got[p.first] ) );
      }
      for( auto&& p : got ) H().check( e.count( p.first ) != 0, "extra", cat( str( p.first ), " must not be present" ) );
    }
    H().trace();
  } );
}

void explore()
{
  bigComplexes( H().thorough ? 600 : 150, [&] ( const std::string& name, const Big& K )
  {
    for( unsigned l = 0; l < 4; l++ )
    {
      if( !H().mine() ) continue;
      Big o = ordered( relabelled( K, l ), l );
      if( l == 1 ) std::reverse( o.begin(), o.end() );
      large( cat( name, ", labels ", l ), o );
    }
  } );
  auto weight = [] ( Mask m ) { return double( ( m * 7 ) % 11 ) - 5.0; };
  for( auto&& K : allComplexes( 4 ) )
  {
    if( !H().mine() ) continue;
    run( K, weight );
    Order o = K;
    std::reverse( o.begin(), o.end() );
    for( auto& m : o ) { Mask x = 0; for( auto v : verts( m ) ) x |= Mask(1) << ( 2 * v + 1 ); m = x; }
    run( o, weight );
  }
  for( auto&& K : complexesUpToIsomorphism( 5 ) ) if( H().mine() ) run( K, weight );
  for( auto&& K : allComplexes( 3 ) )
    monotoneWeights( K, 3, [&] ( const std::map<Mask, unsigned>& w )
    {
      if( H().mine() ) run( K, [&] ( Mask m ) { return double( w.at( m ) ) - 1.0; } );
    } );
  if( H().thorough )
    for( auto&& K : allComplexes( 5 ) ) if( H().mine() ) run( K, weight );
}
