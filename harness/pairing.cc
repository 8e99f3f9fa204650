// Persistence pairing: every filtration of every small complex, all
// algorithms, representations and dualization, against the rank-based
// definition of the pairing.

#include "big.hh"
#include "bridge.hh"

#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/persistentHomology/algorithms/Standard.hh>
#include <aleph/persistentHomology/algorithms/Twist.hh>
#include <aleph/topology/Conversions.hh>
#include <aleph/topology/representations/Heap.hh>
#include <aleph/topology/representations/List.hh>
#include <aleph/topology/representations/Set.hh>
#include <aleph/topology/representations/Vector.hh>

using namespace vf;
using namespace aleph;

using S  = topology::Simplex<double, unsigned>;
using K_ = topology::SimplicialComplex<S>;

using PairList = std::vector< std::pair<unsigned, unsigned> >;

static const unsigned INF = std::numeric_limits<unsigned>::max();

template <class Algorithm, class Rep> void one( const topology::BoundaryMatrix<Rep>& M, const char* name, const PairList& full, const PairList& reduced )
{
  for( int all = 0; all < 2; all++ )
  {
    auto p = calculatePersistencePairing<Algorithm>( M, all == 1 );
    PairList got;
    for( auto&& x : p ) got.push_back( { unsigned( x.first ), x.second == std::numeric_limits<typename Rep::Index>::max() ? INF : unsigned( x.second ) } );
    H().step();
    std::sort( got.begin(), got.end() );
    auto&& want = all ? full : reduced;
    if( got != want )
      H().fail( "pairing", cat( name, all ? " (all creators)" : "", ": expected ", want, ", got ", got ) );

    auto n = unsigned( M.getNumColumns() );

    // Only creators below the limit
    if( n <= 12 )
      for( unsigned max = 0; max <= n + 1; max++ )
      {
        PairList limited, expected;
        for( auto&& x : calculatePersistencePairing<Algorithm>( M, all == 1, typename Rep::Index( max ) ) )
          limited.push_back( { unsigned( x.first ), x.second == std::numeric_limits<typename Rep::Index>::max() ? INF : unsigned( x.second ) } );
        H().step();
        for( auto&& x : want ) if( x.first < max ) expected.push_back( x );
        std::sort( limited.begin(), limited.end() );
        if( limited != expected )
          H().fail( "limit", cat( name, all ? " (all creators)" : "", ", limit ", max, ": expected ", expected, ", got ", limited ) );
      }

    // Queries agree with the contents
    for( unsigned i = 0; i < n; i++ )
    {
      auto it = std::find_if( want.begin(), want.end(), [&] ( const std::pair<unsigned, unsigned>& x ) { return x.first == i; } );
      auto a  = typename Rep::Index( i );
      auto f  = p.find( a );
      if( ( f == p.end() ) != ( it == want.end() ) || ( f != p.end() && unsigned( f->first ) != i ) || p.contains( a ) != ( it != want.end() ) )
        H().fail( "pairing-queries", cat( name, ": query for creator ", i, " is wrong" ) );
      if( it == want.end() ) continue;
      auto b = it->second == INF ? std::numeric_limits<typename Rep::Index>::max() : typename Rep::Index( it->second );
      auto other = typename Rep::Index( it->second == INF ? i : it->second + 1 );
      auto g = p.find( a, b );
      if( g == p.end() || g->first != a || g->second != b || !p.contains( a, b ) || p.contains( a, other ) || p.find( a, other ) != p.end() )
        H().fail( "pairing-queries", cat( name, ": query for the pair of creator ", i, " is wrong" ) );
    }
  }
}

template <class Rep> void rep( const K_& K, const char* name, const PairList& full, const PairList& reduced, bool light )
{
  using namespace persistentHomology::algorithms;
  auto M = topology::makeBoundaryMatrix<Rep>( K );
  auto D = M.dualize();
  one<Standard>( M, ( std::string( name ) + "/Standard/primal" ).c_str(), full, reduced );
  one<Twist>   ( M, ( std::string( name ) + "/Twist/primal" ).c_str(), full, reduced );
  if( !light )
    one<StandardRectangular>( M, ( std::string( name ) + "/StandardRectangular/primal" ).c_str(), full, reduced );
  one<Standard>( D, ( std::string( name ) + "/Standard/dual" ).c_str(), full, reduced );
  one<Twist>   ( D, ( std::string( name ) + "/Twist/dual" ).c_str(), full, reduced );
}

static void checkOrder( const Order& o, bool light )
{
  H().setCase( "order " + strOrder( o ) );
  H().state();
  H().guarded( "pairing", [&]
  {
    auto c = boundaryColumns( o );
    auto r = refPairing( c );
    int top = maxDim( o );
    PairList full, reduced;
    for( auto&& p : r.pairs ) { full.push_back( p ); reduced.push_back( p ); }
    for( auto i : r.essential )
    {
      full.push_back( { i, INF } );
      if( dim( o[i] ) != top ) reduced.push_back( { i, INF } );
    }
    std::sort( full.begin(), full.end() );
    std::sort( reduced.begin(), reduced.end() );

    auto K = toComplex<K_>( o );
    rep< topology::representations::Vector<unsigned> >( K, "Vector", full, reduced, light );
    if( !light )
    {
      rep< topology::representations::List<unsigned> >( K, "List", full, reduced, light );
      rep< topology::representations::Set<unsigned> >( K, "Set", full, reduced, light );
      rep< topology::representations::Vector<int> >( K, "Vector<int>", full, reduced, light );
    }
    H().trace();
    H().sample();
  } );
}

// Members of families of larger complexes
static void checkBig( const std::string& name, const Big& o, bool light )
{
  H().setCase( name );
  if( H().skip() ) return;
  H().state();
  H().guarded( "pairing", [&]
  {
    auto r = bigPairing( o );
    std::size_t top = 0;
    for( auto&& s : o ) top = std::max( top, s.size() );
    PairList full( r.pairs.begin(), r.pairs.end() ), reduced = full;
    for( auto i : r.essential )
    {
      full.push_back( { i, INF } );
      if( o[i].size() != top ) reduced.push_back( { i, INF } );
    }
    std::sort( full.begin(), full.end() );
    std::sort( reduced.begin(), reduced.end() );
    auto K = bigComplex<K_>( o );
    rep< topology::representations::Vector<unsigned> >( K, "Vector", full, reduced, light );
    if( !light )
    {
      rep< topology::representations::List<unsigned> >( K, "List", full, reduced, light );
      rep< topology::representations::Set<unsigned> >( K, "Set", full, reduced, light );
      rep< topology::representations::Heap<unsigned> >( K, "Heap", full, reduced, light );
      rep< topology::representations::Vector<unsigned short> >( K, "Vector<unsigned short>", full, reduced, light );
    }
    H().trace();
  } );
}

// Histories of the pairing itself
template <class Index> void container( const std::vector<unsigned>& ops )
{
  H().setCase( cat( "pairing of ", sizeof( Index ), " bytes, operations ", str( ops ) ) );
  H().state();
  H().guarded( "pairing-container", [&]
  {
    const Index none = std::numeric_limits<Index>::max();
    using List = std::vector< std::pair<Index, Index> >;
    PersistencePairing<Index> p;
    List m;
    for( auto op : ops )
    {
      switch( op )
      {
      case 0: case 1: p.add( Index( op ) ); m.push_back( { Index( op ), none } ); break;
      case 2: case 3: p.add( Index( op - 2 ), Index( 2 ) ); m.push_back( { Index( op - 2 ), Index( 2 ) } ); break;
      case 4: if( !m.empty() ) { auto it = p.erase( p.begin() ); m.erase( m.begin() ); H().check( it == p.begin(), "pairing-container", "wrong position after removal" ); } break;
      case 5: if( !m.empty() ) { p.erase( p.end() - 1 ); m.pop_back(); } break;
      case 6: if( m.size() > 1 ) { p.erase( p.begin(), p.end() - 1 ); m.erase( m.begin(), m.end() - 1 ); } break;
      }
      H().step();
      const auto& c = p;
      H().check( List( c.begin(), c.end() ) == m && List( p.begin(), p.end() ) == m, "pairing-container", "wrong contents" );
      H().check( c.size() == m.size() && c.empty() == m.empty(), "pairing-container", "wrong size" );
      for( Index a = 0; a < 3; a++ )
      {
        auto it = std::find_if( m.begin(), m.end(), [&] ( const std::pair<Index, Index>& x ) { return x.first == a; } );
        H().check( c.contains( a ) == ( it != m.end() ) && c.find( a ) - c.begin() == it - m.begin(), "pairing-container", cat( "wrong answer for creator ", a ) );
        for( Index b : { Index( 1 ), Index( 2 ), none } )
        {
          auto jt = std::find( m.begin(), m.end(), std::make_pair( a, b ) );
          H().check( c.contains( a, b ) == ( jt != m.end() ) && c.find( a, b ) - c.begin() == jt - m.begin(), "pairing-container", cat( "wrong answer for pair ", a, " ", b ) );
        }
      }
      PersistencePairing<Index> q, r;
      for( auto&& x : m ) { q.add( x.first, x.second ); r.add( x.first, x.second ); }
      r.add( 7 );
      H().check( c == q && !( c != q ) && c != r && !( c == r ), "pairing-container", "wrong comparison" );
      if( !m.empty() )
      {
        auto t = q;
        t.begin()->second = Index( 5 );
        H().check( t != c && c == q, "pairing-container", "pairings that differ in a destroyer are equal" );
      }
    }
    H().trace();
  } );
}

void explore()
{
  for( unsigned n = 0; n <= ( H().thorough ? 6u : 4u ); n++ )
    forAllVectors( n, 7, [&] ( const std::vector<unsigned>& ops )
    {
      if( !H().mine() ) return;
      container<unsigned>( ops );
      container<unsigned short>( ops );
    } );

  // 0. Families of larger complexes, several orders and labellings each
  bigComplexes( H().thorough ? 300 : 150, [&] ( const std::string& name, const Big& K )
  {
    for( unsigned kind = 0; kind < 5; kind++ )
      if( H().mine() )
        checkBig( cat( name, ", order ", kind ), relabelled( ordered( K, kind ), kind % 4 ), K.size() > 60 );
  } );

  // 1. All filtrations of all complexes on at most three (labelled) vertices
  for( auto&& K : allComplexes( 3 ) )
    if( H().mine() )
      linearExtensions( K, false, [&] ( const Order& o ) { checkOrder( o, false ); } );

  // 2. All filtrations of all complexes on at most four vertices, up to
  //    relabelling; distributed over the shards by filtration.
  for( auto&& K : complexesUpToIsomorphism( 4 ) )
  {
    std::size_t n = 0;
    linearExtensions( K, !H().thorough, [&] ( const Order& o )
    {
      if( H().mine() )
        checkOrder( o, n % 17 != 0 );
      ++n;
    } );
  }

  // 3. All complexes on at most five labelled vertices, ordered by dimension
  //    and ordered as a lower-star filtration of the vertex order.
  for( auto&& K : allComplexes( 5 ) )
  {
    if( !H().mine() )
      continue;
    checkOrder( K, false );
    Order o = K;
    std::sort( o.begin(), o.end() ); // numeric order of masks = lower star
    checkOrder( o, true );
    if( H().thorough )
    {
      std::vector<unsigned> p = { 0, 1, 2, 3, 4 };
      while( std::next_permutation( p.begin(), p.end() ) )
      {
        Order q = permuteComplex( K, p );
        std::sort( q.begin(), q.end() );
        checkOrder( q, true );
      }
    }
  }
}
