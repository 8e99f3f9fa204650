// Skeletons, filters and intersections as set operations on vertex sets.

#include "big.hh"

#include <aleph/topology/Filter.hh>
#include <aleph/topology/Intersections.hh>
#include <aleph/topology/Skeleton.hh>

using namespace vf;
using namespace aleph::topology;

using S  = Simplex<double, unsigned>;
using K_ = SimplicialComplex<S>;

static double weight( Mask m ) { return double( ( m * 7 ) % 11 ) - 5.0; }

static void expect( const K_& L, const Order& o, const char* what )
{
  H().step();
  H().check( toOrder( L ) == o, what, cat( what, " should be ", strOrder( o ), ", got ", strOrder( toOrder( L ) ) ) );
  for( auto&& s : L )
    H().check( s.data() == weight( toMask( s ) ), what, cat( what, ": weight of ", strMask( toMask( s ) ), " changed to ", s.data() ) );
  for( Mask m : o )
    H().check( L.contains( toSimplex<S>( m ) ), what, cat( what, ": lookup fails for ", strMask( m ) ) );
}

// Different orders of the same complex; skeletons and filters respect them.
static std::vector<Order> orders( const Order& K )
{
  std::vector<Order> r = { K };
  Order o = K;
  std::reverse( o.begin(), o.end() );
  r.push_back( o );
  o = K;
  std::sort( o.begin(), o.end() );
  r.push_back( o );
  o = K;
  std::sort( o.begin(), o.end(), [] ( Mask a, Mask b ) { return ( a * 5 ) % 17 < ( b * 5 ) % 17 || ( ( a * 5 ) % 17 == ( b * 5 ) % 17 && a > b ); } );
  r.push_back( o );
  std::sort( r.begin(), r.end() );
  r.erase( std::unique( r.begin(), r.end() ), r.end() );
  return r;
}

static void skeletons( const Order& o )
{
  auto K = toComplex<K_>( o, weight );
  for( std::size_t k = 0; k <= 5; k++ )
  {
    Order e;
    for( Mask m : o ) if( dim( m ) <= int( k ) ) e.push_back( m );
    expect( Skeleton()( k, K ), e, "skeleton" );
  }
  expect( K, o, "original" );
}

static void filters( const Order& o )
{
  auto K = toComplex<K_>( o, weight );
  for( Mask sub = 0; sub < ( Mask(1) << o.size() ); sub++ )
  {
    Order e;
    std::set<Mask> keep;
    for( std::size_t i = 0; i < o.size(); i++ ) if( sub >> i & 1 ) { e.push_back( o[i] ); keep.insert( o[i] ); }
    std::size_t calls = 0;
    expect( Filter()( K, [&] ( const S& s ) { ++calls; return keep.count( toMask( s ) ) != 0; } ), e, "filter" );
    H().check( calls == o.size(), "filter", "predicate is not evaluated once per simplex" );
  }
}

static void pairs( unsigned n )
{
  for( Mask a = 0; a < ( Mask(1) << n ); a++ )
    for( Mask b = 0; b < ( Mask(1) << n ); b++ )
    {
      if( !H().mine() ) continue;
      H().setCase( "pair " + strMask( a ) + " " + strMask( b ) );
      H().state();
      H().guarded( "pair", [&]
      {
        auto s = toSimplex<S>( a, 1.0 ), t = toSimplex<S>( b, 2.0 );
        auto u = intersect( s, t );
        H().check( toMask( u ) == ( a & b ), "intersect", cat( "intersection should be {", strMask( a & b ), "}, got {", strMask( toMask( u ) ), "}" ) );
        H().check( bool( u ) == ( ( a & b ) != 0 ), "intersect", "emptiness of the intersection is wrong" );
        H().check( sizeOfIntersection( s, t ) == std::size_t( __builtin_popcount( a & b ) ), "size", "wrong size of the intersection" );
        H().step( 2 );
        H().trace();
        H().sample();
      } );
    }
}

static std::string show( const std::set<Mask>& s ) { std::string r; for( auto m : s ) r += strMask( m ) + " "; return r; }

static std::set<Mask> masks( const std::set<S>& s ) { std::set<Mask> r; for( auto&& x : s ) r.insert( toMask( x ) ); return r; }

static void collections( const Order& o, unsigned n )
{
  auto K = toComplex<K_>( o, weight );
  std::set<Mask> in( o.begin(), o.end() );
  for( Mask s = 1; s < ( Mask(1) << n ); s++ )
  {
    auto simplex = toSimplex<S>( s );
    std::set<Mask> e, c;
    int best = 0;
    for( Mask t : o )
    {
      if( t & s ) e.insert( t & s );
      if( ( t & s ) && dim( t ) == dim( s ) ) c.insert( t & s );
      best = std::max( best, __builtin_popcount( t & s ) );
    }
    // A simplex of the complex is reported as the only intersection
    if( in.count( s ) ) e = { s };
    auto r = masks( intersect( K, simplex ) );
    H().check( r == e, "intersect-complex", cat( "intersections with ", strMask( s ), " should be ", show( e ), ", got ", show( r ) ) );
    auto q = masks( intersectWithConstrainedDimension( K, simplex ) );
    H().check( q == c, "intersect-dimension", cat( "intersections with ", strMask( s ), " in its dimension should be ", show( c ), ", got ", show( q ) ) );
    auto l = lastLexicographicalIntersection( K, simplex );
    Mask lm = toMask( l );
    H().check( __builtin_popcount( lm ) == best && ( lm & s ) == lm && ( !lm || in.count( lm ) ), "intersect-last", cat( "largest intersection with ", strMask( s ), " is wrong: {", strMask( lm ), "}" ) );
    H().step( 3 );
  }
}

// Families of larger complexes
static void large( const std::string& name, const Big& o )
{
  H().setCase( name );
  if( H().skip() ) return;
  H().state();
  H().guarded( "complex", [&]
  {
    auto data = [] ( const Face& f, std::size_t i ) { return double( ( i * 7 + f.size() ) % 23 ) - 5; };
    auto K = bigComplex<K_>( o, data );
    auto expected = [&] ( const K_& L, const std::vector<std::size_t>& e, const char* what )
    {
      H().step();
      bool ok = L.size() == e.size();
      std::size_t k = 0;
      for( auto&& s : L )
      {
        ok = ok && k < e.size() && toFace( s ) == o[ e[k] ] && s.data() == data( o[ e[k] ], e[k] );
        k++;
      }
      H().check( ok, what, cat( what, " is wrong" ) );
    };
    for( std::size_t d = 0; d <= 9; d++ )
    {
      std::vector<std::size_t> e;
      for( std::size_t i = 0; i < o.size(); i++ ) if( o[i].size() <= d + 1 ) e.push_back( i );
      expected( Skeleton()( d, K ), e, "skeleton" );
    }
    for( unsigned m = 2; m <= 5; m++ ) for( unsigned r = 0; r < m; r++ )
    {
      std::vector<std::size_t> e;
      for( std::size_t i = 0; i < o.size(); i++ ) if( ( o[i].front() * 3 + o[i].back() + o[i].size() ) % m == r ) e.push_back( i );
      expected( Filter()( K, [&] ( const S& s ) { auto f = toFace( s ); return ( f.front() * 3 + f.back() + f.size() ) % m == r; } ), e, "filter" );
    }
    auto cap = [] ( const Face& a, const Face& b )
    {
      Face c;
      std::set_intersection( a.begin(), a.end(), b.begin(), b.end(), std::back_inserter( c ) );
      return c;
    };
    std::set<Face> in( o.begin(), o.end() );
    std::vector<Face> queries;
    for( std::size_t i = 0; i < o.size(); i += 1 + o.size() / 25 ) queries.push_back( o[i] );
    unsigned n = 0;
    for( auto&& f : o ) n = std::max( n, f.back() );
    { Face all, some; for( unsigned i = 0; i <= n; i++ ) { if( i < 9 ) all.push_back( i ); if( i % 3 == 0 && i < 27 ) some.push_back( i ); } queries.push_back( all ); queries.push_back( some ); }
    for( auto&& q : queries )
    {
      S s( q.begin(), q.end() );
      std::set<Face> e, c;
      std::size_t best = 0;
      for( auto&& t : o )
      {
        auto x = cap( t, q );
        S u( t.begin(), t.end() );
        H().check( toFace( intersect( s, u ) ) == x && sizeOfIntersection( s, u ) == x.size(), "intersect", "wrong intersection" );
        if( !x.empty() ) { e.insert( x ); if( t.size() == q.size() ) c.insert( x ); }
        best = std::max( best, x.size() );
      }
      if( in.count( q ) ) e = { q };
      std::set<Face> r1, r2;
      for( auto&& x : intersect( K, s ) ) r1.insert( toFace( x ) );
      for( auto&& x : intersectWithConstrainedDimension( K, s ) ) r2.insert( toFace( x ) );
      H().check( r1 == e, "intersect-complex", cat( "intersections with ", q, " are wrong" ) );
      H().check( r2 == c, "intersect-dimension", cat( "intersections with ", q, " in its dimension are wrong" ) );
      auto l = toFace( lastLexicographicalIntersection( K, s ) );
      H().check( l.size() == best && cap( l, q ) == l && ( l.empty() || in.count( l ) ), "intersect-last", cat( "largest intersection with ", q, " is wrong" ) );
      H().step( 3 );
    }
    H().trace();
  } );
}

void explore()
{
  bigComplexes( H().thorough ? 150 : 70, [&] ( const std::string& name, const Big& K )
  {
    for( unsigned kind = 0; kind < 4; kind++ )
      if( H().mine() )
        large( cat( name, ", order ", kind ), relabelled( ordered( K, kind ), kind ) );
  } );

  unsigned n = H().thorough ? 5 : 4;
  pairs( 6 );
  for( auto&& K : allComplexes( n ) )
  {
    if( !H().mine() ) continue;
    for( auto&& o : orders( K ) )
    {
      H().setCase( "complex " + strOrder( o ) );
      H().state();
      H().guarded( "complex", [&]
      {
        skeletons( o );
        if( o.size() <= ( H().thorough ? 12u : 10u ) ) filters( o );
        collections( o, n );
        H().trace();
        H().sample();
      } );
    }
  }
  if( !H().thorough )
    for( auto&& K : complexesUpToIsomorphism( 5 ) )
    {
      if( !H().mine() ) continue;
      H().setCase( "complex " + strOrder( K ) );
      H().state();
      H().guarded( "complex", [&] { skeletons( K ); collections( K, 5 ); H().trace(); } );
    }
}
