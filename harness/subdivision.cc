// Barycentric subdivisions against flag complexes.

#include "big.hh"

#include <aleph/topology/BarycentricSubdivision.hh>

using namespace vf;
using namespace aleph::topology;

using S  = Simplex<double, unsigned>;
using K_ = SimplicialComplex<S>;
using Flag = std::set<Mask>;

static std::string show( const Flag& f ) { std::string s = "<"; for( Mask m : f ) s += ( s.size() > 1 ? "<" : "" ) + strMask( m ); return s + ">"; }

static std::set<Flag> flags( const Order& K )
{
  std::set<Flag> r;
  std::vector<Mask> chain;
  std::function<void()> rec = [&]
  {
    if( !chain.empty() ) r.insert( Flag( chain.begin(), chain.end() ) );
    for( Mask m : K )
      if( chain.empty() || ( m != chain.back() && ( m & chain.back() ) == chain.back() ) )
      {
        chain.push_back( m );
        rec();
        chain.pop_back();
      }
  };
  rec();
  return r;
}

// The simplex whose barycentre is a given new vertex is determined by the
// original vertices it is connected to.
static std::map<unsigned, Mask> carriers( const K_& L, Mask original )
{
  std::map<unsigned, Mask> c;
  for( auto&& s : L )
    if( s.dimension() == 0 )
    {
      unsigned v = *s.begin();
      c[v] = v < 32 && ( original >> v & 1 ) ? Mask(1) << v : 0;
    }
  for( auto&& s : L )
    if( s.dimension() == 1 )
    {
      unsigned u = *s.begin(), v = *std::next( s.begin() );
      bool uo = u < 32 && ( original >> u & 1 ), vo = v < 32 && ( original >> v & 1 );
      if( uo && !vo && c.count( v ) ) c[v] |= Mask(1) << u;
      if( vo && !uo && c.count( u ) ) c[u] |= Mask(1) << v;
    }
  return c;
}

template <class W, class F> void compare( const K_& L, const Order& K, W w, F scale, const char* what )
{
  H().step();
  Mask original = 0;
  for( Mask m : K ) original |= m;
  auto c = carriers( L, original );
  std::set<Mask> images;
  for( auto&& p : c )
  {
    H().check( std::find( K.begin(), K.end(), p.second ) != K.end(), "vertices", cat( what, ": vertex ", p.first, " does not correspond to a simplex" ) );
    H().check( images.insert( p.second ).second, "vertices", cat( what, ": simplex ", strMask( p.second ), " has several barycentres" ) );
  }
  std::map<Flag, double> got;
  for( auto&& s : L )
  {
    Flag f;
    for( auto v : s ) f.insert( c.count( v ) ? c[v] : 0 );
    got[f] = s.data();
  }
  auto e = flags( K );
  H().check( L.size() == e.size(), "count", cat( what, ": ", L.size(), " simplices instead of ", e.size() ) );
  for( auto&& f : e )
  {
    H().check( got.count( f ) != 0, "missing", cat( what, ": flag ", show( f ), " is missing" ) );
    if( !got.count( f ) ) continue;
    Mask top = 0;
    for( Mask m : f ) top |= m;
    double x = w( top );
    if( !( f.size() == 1 && dim( top ) == 0 ) ) x *= scale( unsigned( f.size() - 1 ) );
    H().check( close( got[f], x ), "weight", cat( what, ": weight of ", show( f ), " should be ", x, ", got ", got[f] ) );
  }
  for( auto&& p : got ) H().check( e.count( p.first ) != 0, "extra", cat( what, ": ", show( p.first ), " is not a flag" ) );
}

template <class W> void run( const Order& K, W w )
{
  H().setCase( "complex " + strWeighted( K, w ) );
  H().state();
  H().guarded( "subdivision", [&]
  {
    auto C = toComplex<K_>( K, w );
    BarycentricSubdivision sd;
    compare( sd( C ), K, w, [] ( unsigned ) { return 1.0; }, "default" );
    compare( sd( C, [] ( std::size_t d ) { return d == 0 ? 0 : 0.5; } ), K, w, [] ( unsigned d ) { return d == 0 ? 0 : 0.5; }, "halved" );
    compare( sd( C, [] ( std::size_t d ) { return double( d + 1 ); } ), K, w, [] ( unsigned d ) { return double( d + 1 ); }, "scaled by dimension" );
    H().trace();
    H().sample();
  } );
}

// Families of larger complexes: flags of a complex with many or large simplices
static void large( const std::string& name, const Big& K )
{
  H().setCase( name );
  std::map<Face, std::vector<Face> > above;
  for( auto&& f : K ) for( auto&& g : K )
    if( f.size() < g.size() && std::includes( g.begin(), g.end(), f.begin(), f.end() ) ) above[f].push_back( g );
  std::set< std::vector<Face> > e;
  std::vector<Face> chain;
  std::function<void( const Face& )> rec = [&] ( const Face& f )
  {
    chain.push_back( f );
    if( e.size() <= 6000 ) { e.insert( chain ); for( auto&& g : above[f] ) rec( g ); }
    chain.pop_back();
  };
  for( auto&& f : K ) rec( f );
  if( e.size() > 6000 ) { H().skip(); return; }
  H().state();
  H().guarded( "subdivision", [&]
  {
    std::map<Face, double> w;
    for( std::size_t i = 0; i < K.size(); i++ ) w[ K[i] ] = double( ( i * 7 ) % 11 ) + 1.0;
    auto C = bigComplex<K_>( K, [&] ( const Face& f, std::size_t ) { return w[f]; } );
    BarycentricSubdivision sd;
    auto L = sd( C, [] ( std::size_t d ) { return double( d + 1 ); } );
    H().step();
    std::map<unsigned, Face> carrier;
    for( auto&& s : L )
      if( s.dimension() == 1 )
      {
        unsigned u = *s.begin(), v = *std::next( s.begin() );
        bool uo = w.count( { u } ), vo = w.count( { v } );
        if( uo && !vo ) carrier[v].push_back( u );
        if( vo && !uo ) carrier[u].push_back( v );
      }
    for( auto&& s : L ) if( s.dimension() == 0 && w.count( { *s.begin() } ) ) carrier[ *s.begin() ] = { *s.begin() };
    for( auto&& p : carrier ) std::sort( p.second.begin(), p.second.end() );
    std::set< std::vector<Face> > got;
    for( auto&& s : L )
    {
      std::vector<Face> f;
      for( auto v : s ) f.push_back( carrier[v] );
      std::sort( f.begin(), f.end(), byFaceDimension );
      H().check( got.insert( f ).second, "duplicate", "the same flag occurs more than once" );
      if( !e.count( f ) ) { H().fail( "extra", cat( "simplex ", str( toFace( s ) ), " is not a flag" ) ); continue; }
      double x = w[ f.back() ];
      if( !( f.size() == 1 && f[0].size() == 1 ) ) x *= double( f.size() );
      H().check( close( s.data(), x ), "weight", cat( "weight of ", str( toFace( s ) ), " should be ", x, ", got ", s.data() ) );
    }
    H().check( got.size() == e.size(), "count", cat( L.size(), " simplices instead of ", e.size() ) );
    H().trace();
  } );
}

void explore()
{
  bigComplexes( H().thorough ? 200 : 80, [&] ( const std::string& name, const Big& K )
  {
    if( H().mine() ) large( name, K );
    if( H().mine() ) large( name + ", shuffled", ordered( relabelled( K, 3 ), 3 ) );
  } );
  auto weight = [] ( Mask m ) { return double( ( m * 7 ) % 11 ) + 1.0; };
  for( auto&& K : allComplexes( 4 ) )
  {
    if( !H().mine() ) continue;
    run( K, weight );
    Order o = K;
    std::reverse( o.begin(), o.end() );
    run( o, weight );
    std::sort( o.begin(), o.end() );
    for( auto& m : o ) { Mask x = 0; for( auto v : verts( m ) ) x |= Mask(1) << ( 2 * v + 3 ); m = x; }
    run( o, weight );
  }
  for( auto&& K : complexesUpToIsomorphism( 3 ) )
    monotoneWeights( K, 3, [&] ( const std::map<Mask, unsigned>& w )
    {
      if( H().mine() ) run( K, [&] ( Mask m ) { return double( w.at( m ) ) - 1.0; } );
    } );
  for( auto&& K : complexesUpToIsomorphism( 5, H().thorough ? 31 : 2 ) )
    if( H().mine() ) run( K, weight );

  // Second subdivisions have the same homology
  for( auto&& K : complexesUpToIsomorphism( 3 ) )
  {
    if( !H().mine() ) continue;
    H().setCase( "twice " + strOrder( K ) );
    H().state();
    H().guarded( "subdivision", [&]
    {
      BarycentricSubdivision sd;
      auto L = sd( sd( toComplex<K_>( K ) ) );
      H().step( 2 );
      long chi = 0, ref = 0;
      for( auto&& s : L ) chi += s.dimension() % 2 ? -1 : 1;
      for( Mask m : K )   ref += dim( m ) % 2 ? -1 : 1;
      H().check( chi == ref, "euler", cat( "Euler characteristic of second subdivision should be ", ref, ", got ", chi ) );
      for( auto&& s : L )
        for( auto it = s.begin_boundary(); it != s.end_boundary(); ++it )
          H().check( L.contains( *it ), "closed", "second subdivision is not closed under faces" );
      H().trace();
    } );
  }
}
