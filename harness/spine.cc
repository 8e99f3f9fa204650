// Spines of all small complexes.

#include "big.hh"

#include <aleph/topology/Spine.hh>

using namespace vf;
using namespace aleph;
using namespace aleph::topology;

using S  = Simplex<double, unsigned>;
using K_ = SimplicialComplex<S>;

static bool principal( const Order& K, Mask s )
{
  for( Mask t : K ) if( t != s && ( t & s ) == s ) return false;
  return true;
}

static std::set<Mask> freeFaces( const Order& K, Mask s )
{
  std::set<Mask> r;
  if( !principal( K, s ) ) return r;
  for( Mask f : facets( s ) )
  {
    unsigned n = 0;
    for( Mask t : K ) if( t != f && ( t & f ) == f ) ++n;
    if( n == 1 ) r.insert( f );
  }
  return r;
}

static void checkSpine( const K_& L, const Order& K, const char* what )
{
  H().step();
  Order o = toOrder( L );
  auto w = toWeights( L );
  std::set<Mask> in( K.begin(), K.end() ), got( o.begin(), o.end() );
  H().check( got.size() == o.size(), "duplicate", cat( what, ": simplices occur more than once" ) );
  for( Mask m : o )
  {
    H().check( in.count( m ) != 0, "subcomplex", cat( what, ": ", strMask( m ), " is not in the complex" ) );
    for( Mask f : facets( m ) )
    {
      H().check( got.count( f ) != 0, "closed", cat( what, ": face ", strMask( f ), " of ", strMask( m ), " is missing" ) );
      if( !got.count( f ) ) return;
    }
    H().check( freeFaces( o, m ).empty(), "collapse", cat( what, ": ", strMask( m ), " can still be collapsed" ) );
  }
  Order a = o, b = K;
  std::sort( a.begin(), a.end(), byDimension );
  std::sort( b.begin(), b.end(), byDimension );
  H().check( betti( a, 4 ) == betti( b, 4 ), "homology", cat( what, ": Betti numbers should be ", str( betti( b, 4 ) ), ", got ", str( betti( a, 4 ) ) ) );
}

static void run( const Order& K, bool slow )
{
  H().setCase( "complex " + strOrder( K ) );
  H().state();
  H().guarded( "spine", [&]
  {
    auto C = toComplex<K_>( K, [] ( Mask m ) { return double( dim( m ) ); } );
    checkSpine( spine( C ), K, "spine" );
    if( slow ) checkSpine( dumb::spine( C ), K, "naive spine" );

    auto cofaces = buildCofaceMap( C );
    auto faces   = getPrincipalFaces( cofaces, C );
    std::map<Mask, Mask> dumbFaces;
    if( slow )
      for( auto&& p : dumb::principalFaces( C ) ) dumbFaces[ toMask( p.first ) ] = toMask( p.second );
    H().step( 3 );
    for( auto&& s : C )
    {
      Mask m = toMask( s );
      auto f = freeFaces( K, m );
      std::set<Mask> e, c;
      for( Mask t : K ) if( dim( t ) == dim( m ) + 1 && ( t & m ) == m ) e.insert( t );
      for( auto&& t : cofaces.at( s ) ) c.insert( toMask( t ) );
      H().check( c == e, "cofaces", cat( "wrong cofaces of ", strMask( m ) ) );
      H().check( ( faces.find( s ) != faces.end() ) == !f.empty(), "principal", cat( "principal simplices with free faces: ", strMask( m ), " is wrong" ) );
      if( faces.find( s ) != faces.end() )
        H().check( f.count( toMask( faces.at( s ) ) ) != 0, "free-face", cat( "wrong free face of ", strMask( m ) ) );
      if( slow )
      {
        H().check( ( dumbFaces.count( m ) != 0 ) == !f.empty(), "principal", cat( "naive principal simplices: ", strMask( m ), " is wrong" ) );
        if( dumbFaces.count( m ) ) H().check( f.count( dumbFaces[m] ) != 0, "free-face", cat( "wrong naive free face of ", strMask( m ) ) );
      }
      if( dim( m ) >= 1 )
      {
        H().check( dumb::isPrincipal( s, C ) == principal( K, m ), "principal", cat( "principality of ", strMask( m ), " is wrong" ) );
        H().check( isPrincipal( cofaces, s ) == principal( K, m ), "principal", cat( "principality of ", strMask( m ), " is wrong" ) );
        Mask a = toMask( dumb::isAdmissible( s, C ) ), g = toMask( getFreeFace( cofaces, s ) );
        H().check( f.empty() ? a == 0 : f.count( a ) != 0, "admissible", cat( "admissibility of ", strMask( m ), " is wrong" ) );
        H().check( f.empty() ? g == 0 : f.count( g ) != 0, "admissible", cat( "free face of ", strMask( m ), " is wrong" ) );
        H().step( 4 );
      }
    }
    H().trace();
    H().sample();
  } );
}

// Families of larger complexes

static std::map<Face, unsigned> cofaceCounts( const Big& K )
{
  std::map<Face, unsigned> n;
  for( auto&& s : K ) { n[s]; for( auto&& f : facetsOf( s ) ) n[f]++; }
  return n;
}

static void large( const std::string& name, const Big& K, bool slow )
{
  H().setCase( name );
  H().state();
  H().guarded( "spine", [&]
  {
    auto C = bigComplex<K_>( K );
    auto b = bigBetti( K, unsigned( maxDim( K ) ) );
    auto n = cofaceCounts( K );
    auto compare = [&] ( const K_& L, const char* what )
    {
      H().step();
      Big o = toBig( L );
      std::set<Face> got( o.begin(), o.end() );
      H().check( got.size() == o.size(), "duplicate", cat( what, ": simplices occur more than once" ) );
      for( auto&& s : o )
      {
        H().check( n.count( s ) != 0, "subcomplex", cat( what, ": ", str( s ), " is not in the complex" ) );
        for( auto&& f : facetsOf( s ) ) if( !got.count( f ) ) { H().fail( "closed", cat( what, ": face ", str( f ), " is missing" ) ); return; }
      }
      auto m = cofaceCounts( o );
      for( auto&& s : o ) if( m[s] == 0 ) for( auto&& f : facetsOf( s ) )
        H().check( m[f] != 1, "collapse", cat( what, ": ", str( s ), " can still be collapsed" ) );
      H().check( bigBetti( o, unsigned( maxDim( K ) ) ) == b, "homology", cat( what, ": homology changed" ) );
    };
    compare( spine( C ), "spine" );
    if( slow ) compare( dumb::spine( C ), "naive spine" );
    auto cofaces = buildCofaceMap( C );
    auto faces   = getPrincipalFaces( cofaces, C );
    H().step( 2 );
    for( auto&& s : C )
    {
      Face f = toFace( s );
      bool free = false;
      for( auto&& g : facetsOf( f ) ) if( n[f] == 0 && n[g] == 1 ) free = true;
      H().check( cofaces.at( s ).size() == n[f], "cofaces", cat( "wrong cofaces of ", str( f ) ) );
      H().check( ( faces.find( s ) != faces.end() ) == free, "principal", cat( "principality of ", str( f ), " is wrong" ) );
    }
    H().trace();
  } );
}

void explore()
{
  bigComplexes( H().thorough ? 150 : 80, [&] ( const std::string& name, const Big& K )
  {
    for( unsigned l = 0; l < 4; l++ )
      if( H().mine() ) large( cat( name, ", labels ", l ), ordered( relabelled( K, l ), l ), K.size() < ( H().thorough ? 50 : 24 ) );
  } );
  for( auto&& K : allComplexes( 3 ) )
    linearExtensions( K, false, [&] ( const Order& o ) { if( H().mine() ) run( o, true ); } );
  for( auto&& K : allComplexes( 4 ) )
  {
    if( !H().mine() ) continue;
    run( K, true );
    Order o = K;
    std::reverse( o.begin(), o.end() );
    run( o, true );
    std::sort( o.begin(), o.end() );
    run( o, true );
  }
  if( H().thorough )
  {
    for( auto&& K : allComplexes( 5 ) ) if( H().mine() ) run( K, K.size() < 20 );
  }
  else
    for( auto&& K : complexesUpToIsomorphism( 5 ) ) if( H().mine() ) run( K, true );

  // All graphs with a relabelling; collapses of trees and cycles
  for( auto&& K : allComplexes( 5, 1 ) ) if( H().mine() ) run( K, K.size() < ( H().thorough ? 16 : 11 ) );
}
