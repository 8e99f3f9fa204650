// Persistent intersection homology of all small stratified complexes.

#include "bridge.hh"

#include <aleph/persistentHomology/PhiPersistence.hh>

using namespace vf;

using S  = aleph::topology::Simplex<double, unsigned>;
using K_ = aleph::topology::SimplicialComplex<S>;

// birth index, death index (or -1), dimension
using Bar  = std::vector<int>;
using Bars = std::vector<Bar>;

// Ranks of the maps between the homology groups of allowable chains
static Bars reference( const Order& o, const std::vector<char>& allowable )
{
  auto D = boundaryColumns( o );
  int n  = int( o.size() );
  // number of allowable d-simplices with index < a, and rank of their boundary, optionally restricted to some rows
  auto count = [&] ( int d, int a ) { int c = 0; for( int i = 0; i < a; i++ ) c += allowable[ std::size_t( i ) ] && dim( o[ std::size_t( i ) ] ) == d; return c; };
  auto rk = [&] ( int d, int a, std::uint64_t rows )
  {
    std::vector<std::uint64_t> cols;
    for( int i = 0; i < a; i++ ) if( allowable[ std::size_t( i ) ] && dim( o[ std::size_t( i ) ] ) == d ) cols.push_back( D[ std::size_t( i ) ] & rows );
    return int( rank( cols ) );
  };
  Bars bars;
  const std::uint64_t ALL = ~std::uint64_t( 0 );
  for( int d = 0; d <= maxDim( o ); d++ )
  {
    std::vector< std::vector<int> > beta( std::size_t( n + 1 ), std::vector<int>( std::size_t( n + 1 ), 0 ) );
    for( int a = 0; a <= n; a++ )
    {
      std::uint64_t bad = ALL;
      for( int i = 0; i < a; i++ ) if( allowable[ std::size_t( i ) ] ) bad &= ~( std::uint64_t( 1 ) << i );
      int cycles = count( d, a ) - rk( d, a, ALL );
      for( int b = a; b <= n; b++ )
        beta[ std::size_t( a ) ][ std::size_t( b ) ] = cycles - ( rk( d + 1, b, ALL ) - rk( d + 1, b, bad ) );
    }
    auto B = [&] ( int a, int b ) { return beta[ std::size_t( a ) ][ std::size_t( b ) ]; };
    for( int a = 1; a <= n; a++ )
    {
      for( int b = a + 1; b <= n; b++ )
        for( int m = B( a, b - 1 ) - B( a, b ) - B( a - 1, b - 1 ) + B( a - 1, b ); m > 0; m-- ) bars.push_back( { a - 1, b - 1, d } );
      for( int m = B( a, n ) - B( a - 1, n ); m > 0; m-- ) bars.push_back( { a - 1, -1, d } );
    }
  }
  std::sort( bars.begin(), bars.end() );
  return bars;
}

static Bars toBars( const std::vector< aleph::PersistenceDiagram<double> >& diagrams )
{
  Bars r;
  for( auto&& d : diagrams )
    for( auto&& p : d )
      r.push_back( { int( p.x() ), p.isUnpaired() ? -1 : int( p.y() ), int( d.dimension() ) } );
  std::sort( r.begin(), r.end() );
  return r;
}

struct Input
{
  Order o;                           // filtration order
  K_ K;
  std::map<std::vector<char>, Bars> cache;

  explicit Input( const Order& order ) : o( order )
  {
    std::map<Mask, double> w;
    for( std::size_t i = 0; i < o.size(); i++ ) w[ o[i] ] = double( i );
    K = toComplex<K_>( o, [&] ( Mask m ) { return w[m]; } );
  }

  const Bars& bars( const std::vector<char>& a )
  {
    auto it = cache.find( a );
    if( it == cache.end() ) it = cache.insert( { a, reference( o, a ) } ).first;
    return it->second;
  }
};

// p[k] for k = first, ..., d
template <class P> void run( Input& in, const std::vector<Order>& X, const std::vector<int>& p, int first, const P& perversity )
{
  int d = maxDim( in.o );
  std::string text = "filtration " + strOrder( in.o ) + " strata";
  for( auto&& x : X ) text += " " + strOrder( x );
  H().setCase( text + " perversity " + str( p ) + ( first == 2 ? " (Goresky-MacPherson)" : "" ) );
  H().state();

  std::vector<char> allowable;
  for( Mask m : in.o )
  {
    bool fine = true;
    for( int k = first; k <= d; k++ )
    {
      int cap = -1;
      for( Mask x : X[ std::size_t( d - k ) ] ) if( ( x & m ) == x ) cap = std::max( cap, dim( x ) );
      if( cap >= 0 && cap > dim( m ) - k + p[ std::size_t( k - first ) ] ) fine = false;
    }
    allowable.push_back( fine );
  }

  H().guarded( "intersection-homology", [&]
  {
    std::vector<K_> strata;
    for( auto&& x : X ) strata.push_back( toComplex<K_>( x ) );
    auto& e = in.bars( allowable );
    for( bool dualize : { false, true } )
    {
      auto g = toBars( aleph::calculateIntersectionHomology( in.K, strata, perversity, dualize ) );
      H().step();
      H().check( g == e, "intersection-homology", cat( dualize ? "dualised" : "direct", ": classes (birth, death, dimension) should be ", str( e ), ", got ", str( g ) ) );
    }
    H().trace();
    H().sample();
  } );
}

// All subcomplexes of a complex with bounded dimension
static std::vector<Order> subcomplexes( const Order& K, int maxDimension )
{
  Order candidates;
  for( Mask m : K ) if( dim( m ) <= maxDimension ) candidates.push_back( m );
  std::sort( candidates.begin(), candidates.end(), byDimension );
  std::vector<Order> r;
  Order cur;
  std::function<void( std::size_t )> rec = [&] ( std::size_t i )
  {
    if( i == candidates.size() ) { r.push_back( cur ); return; }
    rec( i + 1 );
    for( Mask f : facets( candidates[i] ) ) if( std::find( cur.begin(), cur.end(), f ) == cur.end() ) return;
    cur.push_back( candidates[i] );
    rec( i + 1 );
    cur.pop_back();
  };
  rec( 0 );
  return r;
}

static bool contains( const Order& big, const Order& small )
{
  for( Mask m : small ) if( std::find( big.begin(), big.end(), m ) == big.end() ) return false;
  return true;
}

// Chains X_0 <= ... <= X_{d-1} <= K with dim X_i <= i
static void chains( const Order& K, std::function<void( const std::vector<Order>& )> f, std::size_t limit )
{
  int d = maxDim( K );
  std::vector< std::vector<Order> > options;
  for( int i = 0; i < d; i++ )
  {
    options.push_back( {} );
    for( auto&& x : subcomplexes( K, i ) ) if( x.size() <= limit ) options.back().push_back( x );
  }
  std::vector<Order> X;
  std::function<void( int )> rec = [&] ( int i )
  {
    if( i == d ) { X.push_back( K ); f( X ); X.pop_back(); return; }
    for( auto&& x : options[ std::size_t( i ) ] )
      if( X.empty() || contains( x, X.back() ) ) { X.push_back( x ); rec( i + 1 ); X.pop_back(); }
  };
  rec( 0 );
}

static void stratified( const Order& order, std::size_t limit )
{
  int d = maxDim( order );
  if( d < 1 ) return;
  Order sorted = order;
  std::sort( sorted.begin(), sorted.end(), byDimension );
  Input in( order );
  chains( sorted, [&] ( const std::vector<Order>& X )
  {
    if( !H().mine() ) return;
    // -1 <= p_k <= k-1
    std::vector<int> p( std::size_t( d ), -1 );
    for( ;; )
    {
      run( in, X, p, 1, aleph::Perversity( p.begin(), p.end() ) );
      int k = 0;
      while( k < d && p[ std::size_t( k ) ] == k ) p[ std::size_t( k++ ) ] = -1;
      if( k == d ) break;
      ++p[ std::size_t( k ) ];
    }
    bool proper = d >= 2 && contains( X[ std::size_t( d - 2 ) ], X[ std::size_t( d - 1 ) ] );
    if( !proper )
    {
      H().setCase( cat( "order ", strOrder( order ), " is not a stratification of Goresky and MacPherson" ) );
      H().state();
      H().guarded( "stratification", [&]
      {
        std::vector<unsigned> g( 2, 0 );
        auto K = toComplex<K_>( order );
        std::vector<K_> Y;
        for( auto&& x : X ) Y.push_back( toComplex<K_>( x ) );
        H().step();
        bool thrown = false;
        try { aleph::calculateIntersectionHomology( K, Y, aleph::PerversityGM( g.begin(), g.end() ) ); } catch( const std::runtime_error& ) { thrown = true; }
        H().check( thrown, "stratification", "invalid stratification is accepted" );
      } );
    }
    if( d >= 2 && contains( X[ std::size_t( d - 2 ) ], X[ std::size_t( d - 1 ) ] ) )
      for( int q = 0; q < ( d >= 3 ? 2 : 1 ); q++ )
      {
        std::vector<int> g = { 0 };
        if( d >= 3 ) g.push_back( q );
        run( in, X, g, 2, aleph::PerversityGM( g.begin(), g.end() ) );
      }
  }, limit );
}

static void partitions()
{
  for( auto&& K : complexesUpToIsomorphism( 3 ) )
    linearExtensions( K, false, [&] ( const Order& o )
    {
      if( !H().mine() ) return;
      for( Mask sel = 0; sel < ( Mask(1) << o.size() ); sel++ )
      {
        H().setCase( cat( "partition ", strOrder( o ), " by ", sel ) );
        H().state();
        H().guarded( "partition", [&]
        {
          std::map<Mask, double> w;
          std::map<Mask, bool> in;
          for( std::size_t i = 0; i < o.size(); i++ ) { w[ o[i] ] = double( i ); in[ o[i] ] = sel >> i & 1; }
          auto K = toComplex<K_>( o, [&] ( Mask m ) { return w[m]; } );
          auto r = aleph::partition( K, [&] ( const S& s ) { return in[ toMask( s ) ]; } );
          Order e;
          std::size_t n = 0;
          for( Mask m : o ) if( in[m] ) { e.push_back( m ); ++n; }
          for( Mask m : o ) if( !in[m] ) e.push_back( m );
          H().step();
          H().check( toOrder( r.first ) == e, "partition", cat( "partitioned complex should be ", strOrder( e ), ", got ", strOrder( toOrder( r.first ) ) ) );
          H().check( r.second == n, "partition", cat( "number of allowable simplices should be ", n, ", got ", r.second ) );
          H().check( toWeights( r.first ) == toWeights( K ), "partition", "weights have been changed" );
          H().trace();
        } );
      }
    } );
}

static void perversities()
{
  for( unsigned n = 0; n <= 4; n++ )
    forAllVectors( n, 7, [&] ( const std::vector<unsigned>& x )
    {
      if( !H().mine() ) return;
      std::vector<int> v, e;
      for( std::size_t i = 0; i < n; i++ ) { v.push_back( int( x[i] ) - 2 ); e.push_back( std::min( std::max( v[i], -1 ), int( i ) ) ); }
      H().setCase( "perversity " + str( v ) );
      H().state();
      H().guarded( "perversity", [&]
      {
        aleph::Perversity p( v.begin(), v.end() );
        H().step();
        H().check( std::vector<int>( p.begin(), p.end() ) == e, "perversity", cat( "values should be ", str( e ) ) );
        for( unsigned d = 0; d <= n + 2; d++ )
          H().check( p( d ) == ( d >= 1 && d <= n ? e[ d - 1 ] : 0 ), "perversity", cat( "value for dimension ", d, " is wrong: ", p( d ) ) );

        // Growth by at most one
        std::vector<unsigned> g;
        for( auto y : v ) g.push_back( unsigned( std::max( y, 0 ) ) );
        aleph::PerversityGM q( g.begin(), g.end() );
        for( unsigned d = 2; d <= n + 1; d++ )
        {
          if( d == 2 ) H().check( q( d ) == 0, "perversity-gm", cat( "value for dimension 2 is ", q( d ), " instead of 0" ) );
          else         H().check( q( d ) == q( d - 1 ) || q( d ) == q( d - 1 ) + 1, "perversity-gm", cat( "value for dimension ", d, " does not satisfy the growth condition" ) );
        }
        H().check( q( 0 ) == 0 && q( 1 ) == 0 && q( n + 2 ) == 0, "perversity-gm", "values for invalid dimensions should be zero" );

        // Valid values remain as they are
        bool valid = n == 0 || g[0] == 0;
        for( std::size_t i = 1; i < n; i++ ) if( g[i] != g[i-1] && g[i] != g[i-1] + 1 ) valid = false;
        if( valid ) H().check( std::vector<unsigned>( q.begin(), q.end() ) == g, "perversity-gm", "valid perversity has been changed" );
        H().trace();
      } );
    } );
}

void explore()
{
  partitions();
  perversities();
  for( auto&& K : complexesUpToIsomorphism( 3 ) )
    linearExtensions( K, false, [&] ( const Order& o ) { stratified( o, 99 ); } );
  for( auto&& K : complexesUpToIsomorphism( 4 ) )
  {
    if( maxDim( K ) > 2 && !H().thorough ) { stratified( K, 5 ); continue; }
    stratified( K, maxDim( K ) > 2 ? 11 : 99 );
    // cone-wise order: a simplex enters with its largest vertex
    Order o = K;
    std::stable_sort( o.begin(), o.end(), [] ( Mask a, Mask b ) { return 31 - __builtin_clz( a ) < 31 - __builtin_clz( b ); } );
    stratified( o, maxDim( K ) > 2 ? 6 : 99 );
  }
}
