// Connected components: the dedicated zero-dimensional algorithm, its
// callbacks, ordinary components and the extended persistence hierarchy.

#include "big.hh"

#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/persistentHomology/ConnectedComponents.hh>
#include <aleph/persistentHomology/ExtendedPersistenceHierarchy.hh>
#include <aleph/topology/ConnectedComponents.hh>

using namespace vf;
using namespace aleph;

using S  = topology::Simplex<double, unsigned>;
using K_ = topology::SimplicialComplex<S>;

using PP     = PersistencePairing<unsigned>;
using Points = std::vector< std::pair<double, double> >;
using Pairs  = std::vector< std::pair<unsigned, unsigned> >;

static const double INFTY = std::numeric_limits<double>::infinity();
static const unsigned NONE = std::numeric_limits<unsigned>::max();

struct Merge
{
  unsigned younger, older;
  double creation, destruction;
  unsigned u, v; // u < v
  bool operator==( const Merge& o ) const
  {
    return younger == o.younger && older == o.older && creation == o.creation && destruction == o.destruction && u == o.u && v == o.v;
  }
};

static std::string show( const std::vector<Merge>& m )
{
  std::string s;
  for( auto&& x : m ) s += cat( " [", x.younger, "->", x.older, " @", x.creation, "..", x.destruction, " via ", x.u, "-", x.v, "]" );
  return s;
}

// Recording functor; the state is shared since functors may be copied.
struct Log { std::vector<Merge> merges; std::multiset< std::pair<unsigned,double> > roots; std::multiset<unsigned> initialized; };
struct Recorder
{
  Log* log;
  void initialize( unsigned v ) { log->initialized.insert( v ); }
  void operator()( unsigned younger, unsigned older, double creation, double destruction, unsigned u, unsigned v )
  {
    log->merges.push_back( { younger, older, creation, destruction, std::min( u, v ), std::max( u, v ) } );
  }
  void operator()( unsigned root, double creation ) { log->roots.insert( { root, creation } ); }
};

static Points points( const PersistenceDiagram<double>& d )
{
  Points p;
  for( auto&& x : d ) p.push_back( { x.x(), x.y() } );
  std::sort( p.begin(), p.end() );
  return p;
}

static Pairs pairs( const PP& q )
{
  Pairs p( q.begin(), q.end() );
  std::sort( p.begin(), p.end() );
  return p;
}

template <class E> void checkOne( const std::vector<E>& o, const std::map<E,double>& w, const std::string& name, bool hierarchy = true )
{
  H().setCase( name );
  if( H().skip() ) return;
  H().state();
  H().guarded( "components", [&]
  {
    auto K = toComplex<K_>( o, [&] ( const E& m ) { return w.at( m ); } );

    // Reference: naive relabelling of components
    std::map<unsigned, unsigned> comp;     // vertex -> creator vertex of its component
    std::map<unsigned, unsigned> position; // vertex -> position in the order
    std::vector<Merge> merges;
    Pairs paired, pairedOff;
    Points pointsAll, pointsOff;
    std::set<unsigned> vertices;
    for( unsigned i = 0; i < o.size(); i++ )
      if( dim( o[i] ) == 0 ) { unsigned v = verts( o[i] )[0]; comp[v] = v; position[v] = i; vertices.insert( v ); }
    for( unsigned i = 0; i < o.size(); i++ )
    {
      if( dim( o[i] ) != 1 ) continue;
      auto e = verts( o[i] );
      unsigned a = comp[ e[0] ], b = comp[ e[1] ];
      if( a == b ) continue;
      if( position[a] < position[b] ) std::swap( a, b ); // a is younger
      for( auto&& x : comp ) if( x.second == a ) x.second = b;
      double c = w.at( single<E>( a ) ), d = w.at( o[i] );
      merges.push_back( { a, b, c, d, e[0], e[1] } );
      paired.push_back( { position[a], i } );
      pointsAll.push_back( { c, d } );
      if( c != d ) { pairedOff.push_back( { position[a], i } ); pointsOff.push_back( { c, d } ); }
    }
    std::multiset< std::pair<unsigned,double> > roots;
    std::set<unsigned> rootSet;
    for( auto&& x : comp )
      if( x.first == x.second )
      {
        double c = w.at( single<E>( x.first ) );
        roots.insert( { x.first, c } );
        rootSet.insert( x.first );
        for( auto p : { &paired, &pairedOff } ) p->push_back( { position[x.first], NONE } );
        for( auto p : { &pointsAll, &pointsOff } ) p->push_back( { c, INFTY } );
      }
    for( auto p : { &paired, &pairedOff } ) std::sort( p->begin(), p->end() );
    for( auto p : { &pointsAll, &pointsOff } ) std::sort( p->begin(), p->end() );

    // The general algorithm has to agree
    {
      Points g;
      for( auto&& D : calculatePersistenceDiagrams( K, true, true ) )
        if( D.dimension() == 0 ) g = points( D );
      H().step();
      H().check( g == pointsAll, "general", cat( "general algorithm: expected ", pointsAll, ", got ", g ) );
    }

    using Yes = traits::PersistencePairingCalculation<PP>;
    using No  = traits::NoPersistencePairingCalculation<PP>;

    Log log1, log2;
    auto r1 = calculateZeroDimensionalPersistenceDiagram<S>( K );
    auto r2 = calculateZeroDimensionalPersistenceDiagram<S, Yes>( K );
    auto r3 = calculateZeroDimensionalPersistenceDiagram<S, Yes, traits::DiagonalElementCalculation>( K, Recorder{ &log1 } );
    auto r4 = calculateZeroDimensionalPersistenceDiagram<S, No,  traits::DiagonalElementCalculation>( K );
    auto r5 = calculateZeroDimensionalPersistenceDiagram<S, Yes, traits::NoDiagonalElementCalculation>( K, Recorder{ &log2 } );
    H().step( 5 );

    auto cmp = [&] ( const char* what, const std::tuple< PersistenceDiagram<double>, PP >& r, const Points& wp, const Pairs* wq )
    {
      auto gp = points( std::get<0>( r ) );
      H().check( gp == wp, "zero-diagram", cat( what, ": expected ", wp, ", got ", gp ) );
      H().check( std::get<0>( r ).dimension() == 0, "zero-dimension", "diagram dimension is not zero" );
      auto gq = pairs( std::get<1>( r ) );
      if( wq ) H().check( gq == *wq, "zero-pairing", cat( what, ": expected ", *wq, ", got ", gq ) );
      else     H().check( gq.empty(), "zero-pairing", cat( what, ": pairing is not empty: ", gq ) );
    };
    cmp( "default",         r1, pointsOff, nullptr );
    cmp( "pairing",         r2, pointsOff, &pairedOff );
    cmp( "pairing/diag",    r3, pointsAll, &paired );
    cmp( "no pairing/diag", r4, pointsAll, nullptr );
    cmp( "pairing/no diag", r5, pointsOff, &pairedOff );

    for( auto l : { &log1, &log2 } )
    {
      H().check( l->merges == merges, "callbacks", cat( "merges: expected", show( merges ), ", got", show( l->merges ) ) );
      H().check( l->roots == roots, "callbacks", "roots reported to the functor differ" );
      H().check( l->initialized == std::multiset<unsigned>( vertices.begin(), vertices.end() ), "callbacks", "initialized vertices differ" );
    }

    // Ordinary components
    {
      auto uf = topology::calculateConnectedComponents( K );
      H().step();
      std::vector<unsigned> rs;
      uf.roots( std::back_inserter( rs ) );
      H().check( rs.size() == rootSet.size(), "ordinary", cat( "expected ", rootSet.size(), " components, got ", rs.size() ) );
      std::set<unsigned> all;
      for( auto r : rs )
      {
        std::vector<unsigned> m;
        uf.get( r, std::back_inserter( m ) );
        std::set<unsigned> got( m.begin(), m.end() ), want;
        for( auto v : vertices ) if( comp[v] == comp[r] ) want.insert( v );
        H().check( got == want && m.size() == got.size(), "ordinary", cat( "component of ", r, ": expected ", want, ", got ", m ) );
        all.insert( got.begin(), got.end() );
      }
      H().check( all == vertices, "ordinary", "components do not cover the vertices" );
      for( auto u : vertices ) for( auto v : vertices )
        H().check( ( uf.find( u ) == uf.find( v ) ) == ( comp[u] == comp[v] ), "ordinary", cat( "wrong connectivity of ", u, " and ", v ) );
    }

    // Extended hierarchy
    if( hierarchy )
    {
      ExtendedPersistenceHierarchy<S> eph;
      auto r = eph( K );
      H().step();
      // Indices refer to the 1-skeleton
      std::vector<unsigned> index( o.size() );
      unsigned k = 0;
      for( unsigned i = 0; i < o.size(); i++ ) if( dim( o[i] ) <= 1 ) index[i] = k++;
      Pairs want;
      for( auto&& p : paired ) want.push_back( { index[p.first], p.second == NONE ? NONE : index[p.second] } );
      std::sort( want.begin(), want.end() );
      auto got = pairs( r.first );
      H().check( got == want, "hierarchy-pairing", cat( "expected ", want, ", got ", got ) );

      std::multiset<unsigned> children, wantChildren;
      for( auto&& m : merges ) if( m.creation != m.destruction ) wantChildren.insert( m.younger );
      for( auto&& e : r.second )
      {
        children.insert( e.second );
        bool known = vertices.count( e.first ) && vertices.count( e.second );
        H().check( known, "hierarchy-edges", "edge with unknown vertex" );
        if( known )
          H().check( e.first != e.second && comp[e.first] == comp[e.second], "hierarchy-edges",
                     cat( "edge ", e.first, "-", e.second, " does not connect two vertices of one component" ) );
      }
      H().check( children == wantChildren, "hierarchy-edges", "every destroyed component with non-zero persistence has to be the child of exactly one edge" );

      // Following the edges from any destroyed component must end at a root
      std::map<unsigned, unsigned> parent;
      for( auto&& e : r.second ) parent[ e.second ] = e.first;
      for( auto&& e : parent )
      {
        unsigned v = e.first;
        std::size_t steps = 0;
        while( parent.count( v ) && steps <= parent.size() ) { v = parent[v]; ++steps; }
        H().check( steps <= parent.size(), "hierarchy-edges", "cyclic hierarchy" );
      }
    }
    H().trace();
    H().sample();
  } );
}

static void checkOne( const Order& o, const std::map<Mask,double>& w )
{
  checkOne<Mask>( o, w, "complex " + strWeighted( o, [&] ( Mask m ) { return w.at( m ); } ) );
}

static void weighted( const Order& K, unsigned base, bool descending )
{
  monotoneWeights( K, base, [&] ( const std::map<Mask, unsigned>& m )
  {
    if( !H().mine() ) return;
    std::map<Mask,double> w;
    for( auto&& x : m ) w[ x.first ] = descending ? 1.5 - x.second : x.second - 0.5;
    Order o = K;
    std::stable_sort( o.begin(), o.end(), [&] ( Mask a, Mask b )
    {
      return m.at( a ) != m.at( b ) ? m.at( a ) < m.at( b ) : byDimension( a, b );
    } );
    checkOne( o, w );
  } );
}

// Interlevel set persistence hierarchy of a function on a path whose values
// are all different: the parent of a merged minimum is the minimum merged
// last into the older component if the last minima of both components are
// neighbours, and the minimum of the older component otherwise.
static void hierarchyOfPath( const std::vector<double>& f, bool superlevel )
{
  unsigned n = f.size();
  double sign = superlevel ? -1 : 1;
  std::string name = superlevel ? "superlevel hierarchy" : "sublevel hierarchy";
  for( auto x : f ) name += cat( " ", x );
  H().setCase( name );
  if( H().skip() ) return;
  H().state();
  H().guarded( "hierarchy-edges", [&]
  {
    std::vector<S> simplices;
    for( unsigned i = 0; i < n; i++ ) simplices.push_back( S( i, f[i] ) );
    for( unsigned i = 0; i + 1 < n; i++ ) simplices.push_back( S( { i, i+1 }, sign * std::max( sign * f[i], sign * f[i+1] ) ) );
    std::stable_sort( simplices.begin(), simplices.end(), [&] ( const S& a, const S& b ) { return sign * a.data() < sign * b.data(); } );
    K_ K( simplices.begin(), simplices.end() );

    auto value   = [&] ( unsigned i ) { return sign * f[i]; };
    auto minimum = [&] ( unsigned i ) { return ( i == 0 || value( i-1 ) > value( i ) ) && ( i + 1 == n || value( i+1 ) > value( i ) ); };

    // Maxima in ascending order separate the minima on both sides
    std::vector<unsigned> minima, maxima;
    for( unsigned i = 0; i < n; i++ )
      if( minimum( i ) ) minima.push_back( i );
      else if( i && i + 1 < n && value( i-1 ) < value( i ) && value( i+1 ) < value( i ) ) maxima.push_back( i );
    std::sort( maxima.begin(), maxima.end(), [&] ( unsigned a, unsigned b ) { return value( a ) < value( b ); } );

    std::map<unsigned, unsigned> comp, last;
    for( auto m : minima ) comp[m] = last[m] = m;
    std::vector< std::pair<unsigned, unsigned> > want;
    for( auto x : maxima )
    {
      unsigned l = 0, r = n;
      for( auto m : minima ) if( m < x ) l = m; else if( r == n ) r = m;
      unsigned older = comp[l], younger = comp[r];
      if( value( older ) > value( younger ) ) std::swap( older, younger );
      unsigned a = std::min( last[older], last[younger] ), b = std::max( last[older], last[younger] );
      bool neighbours = true;
      for( auto m : minima ) if( a < m && m < b ) neighbours = false;
      want.push_back( { neighbours ? last[older] : older, younger } );
      last[older] = younger;
      for( auto&& c : comp ) if( c.second == younger ) c.second = older;
    }

    ExtendedPersistenceHierarchy<S> eph;
    auto got = eph( K ).second;
    H().step();
    std::sort( want.begin(), want.end() );
    std::sort( got.begin(), got.end() );
    std::vector< std::pair<unsigned, unsigned> > found( got.begin(), got.end() );
    H().check( found == want, "hierarchy-edges", cat( "expected edges ", want, ", got ", found ) );
    H().trace();
    H().sample();
  } );
}

static void hierarchies()
{
  // All orders of the values
  for( unsigned n = 1; n <= ( H().thorough ? 8u : 7u ); n++ )
  {
    std::vector<double> f;
    for( unsigned i = 0; i < n; i++ ) f.push_back( double( i ) - 1.5 );
    do
      for( unsigned s = 0; s < 2; s++ ) if( H().mine() ) hierarchyOfPath( f, s );
    while( std::next_permutation( f.begin(), f.end() ) );
  }

  // All orders of the minima and all orders of the maxima, optionally with
  // additional vertices on the slopes
  for( unsigned n = 4; n <= ( H().thorough ? 6u : 5u ); n++ )
    for( unsigned slopes = 0; slopes < 2; slopes++ )
    {
      std::vector<unsigned> low, high;
      for( unsigned i = 0; i < n; i++ ) low.push_back( i );
      do
      {
        high.clear();
        for( unsigned i = 0; i + 1 < n; i++ ) high.push_back( i );
        do
          for( unsigned s = 0; s < 2; s++ )
          {
            if( !H().mine() ) continue;
            std::vector<double> f;
            for( unsigned i = 0; i < n; i++ )
            {
              if( i )
              {
                if( slopes ) f.push_back( 20 + 2*i );
                f.push_back( 100 + high[i-1] );
                if( slopes ) f.push_back( 21 + 2*i );
              }
              f.push_back( low[i] );
            }
            if( s ) for( auto& x : f ) x = -x;
            hierarchyOfPath( f, s );
          }
        while( std::next_permutation( high.begin(), high.end() ) );
      }
      while( std::next_permutation( low.begin(), low.end() ) );
    }
}

void explore()
{
  hierarchies();

  // Families of larger complexes with few or many different weights
  bigComplexes( H().thorough ? 250 : 130, [&] ( const std::string& name, const Big& K )
  {
    for( unsigned kind = 0; kind < 5; kind++ )
      if( H().mine() )
      {
        auto o = relabelled( ordered( K, kind ), kind % 4 );
        std::map<Face,double> w;
        for( std::size_t i = 0; i < o.size(); i++ ) w[ o[i] ] = kind == 0 ? 1 : kind == 1 ? double( i ) : kind == 2 ? 100 - double( i / 4 ) : double( i / 7 );
        checkOne<Face>( o, w, cat( name, ", order ", kind ) );
      }
  } );

  // All filtrations of all complexes with at most three vertices, all
  // weights that do not decrease along the filtration
  for( auto&& K : allComplexes( 3 ) )
    linearExtensions( K, false, [&] ( const Order& o )
    {
      if( !H().mine() ) return;
      forAllVectors( o.empty() ? 0 : o.size() - 1, o.size() > 5 ? 2 : 3, [&] ( const std::vector<unsigned>& inc )
      {
        unsigned total = 0;
        for( auto x : inc ) total += x;
        if( total > 2 ) return;
        std::map<Mask,double> w;
        double c = -1;
        for( std::size_t i = 0; i < o.size(); i++ )
        {
          if( i ) c += inc[i-1];
          w[ o[i] ] = c;
        }
        checkOne( o, w );
      } );
    } );

  // All graphs with at most four labelled vertices, all monotone weights
  for( auto&& K : allComplexes( 4, 1 ) )
    weighted( K, H().thorough ? 3 : 2, false );
  for( auto&& K : complexesUpToIsomorphism( 4, 2 ) )
  {
    weighted( K, 3, true );
    weighted( K, 3, false );
  }

  // Graphs on five vertices up to isomorphism, all edge orders given by
  // weights over two values, all vertices from the beginning
  for( auto&& K : complexesUpToIsomorphism( 5, 1 ) )
    weighted( K, 2, false );

  // Path-like functions with longer merge sequences: lower-star filtrations
  // of all vertex orders
  for( unsigned n = 5; n <= ( H().thorough ? 7u : 6u ); n++ )
  {
    std::vector< std::vector<Edge> > graphs( 3 );
    for( unsigned i = 0; i + 1 < n; i++ ) graphs[0].push_back( { i, i + 1 } );           // path
    for( unsigned i = 0; i < n; i++ ) { unsigned k = ( i + 1 ) % n; graphs[1].push_back( { std::min( i, k ), std::max( i, k ) } ); } // cycle
    for( unsigned i = 0; i + 1 < n; i++ ) graphs[2].push_back( { i / 2, i + 1 } );       // binary tree
    for( auto&& g : graphs )
      forAllVectors( n, n == 5 ? 4 : 3, [&] ( const std::vector<unsigned>& f )
      {
        if( !H().mine() ) return;
        Order o;
        std::map<Mask,double> w;
        for( unsigned i = 0; i < n; i++ ) { o.push_back( Mask(1) << i ); w[ o.back() ] = f[i]; }
        for( auto&& e : g ) { o.push_back( ( Mask(1) << e.u ) | ( Mask(1) << e.v ) ); w[ o.back() ] = std::max( f[e.u], f[e.v] ); }
        std::stable_sort( o.begin(), o.end(), [&] ( Mask a, Mask b ) { return w[a] != w[b] ? w[a] < w[b] : byDimension( a, b ); } );
        checkOne( o, w );
      } );
  }
}
