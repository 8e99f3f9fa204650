// Maximal cliques and clique graphs of all small graphs.

#include "big.hh"

#include <aleph/topology/CliqueGraph.hh>
#include <aleph/topology/MaximalCliques.hh>

using namespace vf;
using namespace aleph::topology;

using S  = Simplex<double, unsigned>;
using K_ = SimplicialComplex<S>;

static double weight( Mask m ) { return double( ( m * 7 ) % 11 ) - 5.0; }

static std::vector<Mask> expectedCliques( const Order& o )
{
  std::set<Mask> edges;
  Mask all = 0;
  for( Mask m : o ) { all |= m; if( dim( m ) == 1 ) edges.insert( m ); }
  auto clique = [&] ( Mask m )
  {
    for( auto a : verts( m ) ) for( auto b : verts( m ) )
      if( a < b && !edges.count( ( Mask(1) << a ) | ( Mask(1) << b ) ) ) return false;
    return true;
  };
  std::vector<Mask> r;
  for( Mask m = all; m; m = ( m - 1 ) & all )
  {
    if( !clique( m ) ) continue;
    bool maximal = true;
    for( auto v : verts( all & ~m ) ) if( clique( m | ( Mask(1) << v ) ) ) maximal = false;
    if( maximal ) r.push_back( m );
  }
  std::sort( r.begin(), r.end() );
  return r;
}

template <class C> std::vector<Mask> masks( const C& cliques )
{
  std::vector<Mask> r;
  for( auto&& c : cliques )
  {
    Mask m = 0;
    for( auto v : c ) m |= Mask(1) << unsigned( v );
    r.push_back( m );
  }
  std::sort( r.begin(), r.end() );
  return r;
}

static void cliques( const Order& o )
{
  H().setCase( "graph " + strOrder( o ) );
  H().state();
  H().guarded( "cliques", [&]
  {
    auto K = toComplex<K_>( o, weight );
    auto e = expectedCliques( o );
    auto a = masks( maximalCliquesKoch( K ) );
    auto b = masks( maximalCliquesBronKerbosch( K ) );
    H().step( 2 );
    H().check( a == e, "koch", cat( "maximal cliques should be ", strOrder( e ), ", Koch's algorithm reports ", strOrder( a ) ) );
    H().check( b == e, "bron-kerbosch", cat( "maximal cliques should be ", strOrder( e ), ", the Bron-Kerbosch algorithm reports ", strOrder( b ) ) );
    H().trace();
    H().sample();
  } );
}

template <class W, class F> void compareGraph( const K_& L, const Order& o, unsigned k, W w, F f, const char* what )
{
  std::map<Mask, double> e, got;
  for( std::size_t i = 0; i < o.size(); i++ )
  {
    if( dim( o[i] ) != int( k ) ) continue;
    e[ Mask(1) << i ] = w( o[i] );
    for( std::size_t j = i + 1; j < o.size(); j++ )
      if( dim( o[j] ) == int( k ) && dim( o[i] & o[j] ) == int( k ) - 1 && k > 0 )
        e[ ( Mask(1) << i ) | ( Mask(1) << j ) ] = f( w( o[i] ), w( o[j] ) );
  }
  for( auto&& s : L ) got[ toMask( s ) ] = s.data();
  H().step();
  H().check( got.size() == L.size(), "clique-graph", "simplices occur more than once" );
  std::string a, b;
  for( auto&& p : e )   a += strMask( p.first ) + ":" + str( p.second ) + " ";
  for( auto&& p : got ) b += strMask( p.first ) + ":" + str( p.second ) + " ";
  H().check( e == got, "clique-graph", cat( what, ": clique graph for dimension ", k, " should be ", a, ", got ", b ) );
}

template <class W> void cliqueGraph( const Order& o, W w )
{
  H().setCase( "complex " + strWeighted( o, w ) );
  H().state();
  H().guarded( "clique-graph", [&]
  {
    auto K = toComplex<K_>( o, w );
    for( unsigned k = 0; k <= 4; k++ )
    {
      compareGraph( getCliqueGraph( K, k ), o, k, w, [] ( double a, double b ) { return std::max( a, b ); }, "maximum" );
      compareGraph( getCliqueGraph( K, k, [] ( double a, double b ) { return std::min( a, b ); } ), o, k, w, [] ( double a, double b ) { return std::min( a, b ); }, "minimum" );
      compareGraph( getCliqueGraph( K, k, [] ( double a, double b ) { return a + b; } ), o, k, w, [] ( double a, double b ) { return a + b; }, "sum" );
    }
    H().trace();
    H().sample();
  } );
}

// Families of larger graphs and complexes

static std::set<Face> largeCliques( unsigned n, const std::set< std::pair<unsigned, unsigned> >& edges )
{
  std::set<Face> r;
  auto adjacent = [&] ( unsigned a, unsigned b ) { return edges.count( { std::min( a, b ), std::max( a, b ) } ) != 0; };
  Face c;
  std::function<void( unsigned )> rec = [&] ( unsigned from )
  {
    bool maximal = !c.empty();
    for( unsigned v = 0; v < n; v++ )
    {
      if( std::find( c.begin(), c.end(), v ) != c.end() ) continue;
      bool all = true;
      for( auto u : c ) if( !adjacent( u, v ) ) { all = false; break; }
      if( !all ) continue;
      maximal = false;
      if( v < from ) continue;
      c.push_back( v );
      rec( v + 1 );
      c.pop_back();
    }
    if( maximal ) r.insert( c );
  };
  rec( 0 );
  return r;
}

template <class C> std::multiset<Face> faces( const C& cliques )
{
  std::multiset<Face> r;
  for( auto&& c : cliques ) r.insert( toFace( c ) );
  return r;
}

static void cliques( const std::string& name, unsigned n, const std::vector< std::pair<unsigned, unsigned> >& edges, unsigned labels, bool reversed )
{
  H().setCase( cat( name, ", labels ", labels, reversed ? ", reversed" : "" ) );
  H().state();
  H().guarded( "cliques", [&]
  {
    Big o;
    for( unsigned v = 0; v < n; v++ ) o.push_back( { v } );
    for( auto&& e : edges ) o.push_back( { e.first, e.second } );
    o = relabelled( o, labels );
    if( reversed ) std::reverse( o.begin(), o.end() );
    std::multiset<Face> e;
    for( auto&& c : largeCliques( n, { edges.begin(), edges.end() } ) )
      e.insert( relabelled( { c, { n - 1 } }, labels )[0] );
    auto K = bigComplex<K_>( o );
    H().step( 2 );
    H().check( faces( maximalCliquesKoch( K ) ) == e, "koch", "Koch's algorithm reports other maximal cliques" );
    H().check( faces( maximalCliquesBronKerbosch( K ) ) == e, "bron-kerbosch", "the Bron-Kerbosch algorithm reports other maximal cliques" );
    H().trace();
  } );
}

static void cliqueGraph( const std::string& name, const Big& o, unsigned order )
{
  H().setCase( cat( name, ", order ", order ) );
  H().state();
  H().guarded( "clique-graph", [&]
  {
    auto w = [] ( const Face& f, std::size_t i ) { return double( ( i * 7 ) % 11 ) - 5.0 + double( f.size() ); };
    auto K = bigComplex<K_>( o, w );
    for( unsigned k = 0; int( k ) <= maxDim( o ) + 1; k++ )
    {
      std::map<Face, double> e, got;
      for( std::size_t i = 0; i < o.size(); i++ )
      {
        if( o[i].size() != k + 1 ) continue;
        e[ Face{ unsigned( i ) } ] = w( o[i], i );
        for( std::size_t j = i + 1; j < o.size() && k > 0; j++ )
        {
          if( o[j].size() != k + 1 ) continue;
          Face c;
          std::set_intersection( o[i].begin(), o[i].end(), o[j].begin(), o[j].end(), std::back_inserter( c ) );
          if( c.size() == k ) e[ Face{ unsigned( i ), unsigned( j ) } ] = std::max( w( o[i], i ), w( o[j], j ) );
        }
      }
      auto L = getCliqueGraph( K, k );
      for( auto&& s : L ) got[ toFace( s ) ] = s.data();
      H().step();
      H().check( got.size() == L.size() && e == got, "clique-graph", cat( "clique graph for dimension ", k, " should have ", e.size(), " simplices, has ", L.size(), ", or other weights" ) );
    }
    H().trace();
  } );
}

static void large()
{
  bigGraphs( H().thorough ? 60 : 30, [&] ( const std::string& name, unsigned n, const std::vector< std::pair<unsigned, unsigned> >& edges )
  {
    for( unsigned l = 0; l < 4; l++ ) if( H().mine() ) cliques( name, n, edges, l, l % 2 );
  } );
  bigComplexes( H().thorough ? 260 : 100, [&] ( const std::string& name, const Big& K )
  {
    for( unsigned order = 0; order < 5; order += 2 ) if( H().mine() ) cliqueGraph( name, ordered( K, order ), order );
  } );
}

void explore()
{
  large();
  // All graphs; identifiers with gaps and reversed insertion order as well
  for( auto&& G : allComplexes( 5, 1 ) )
  {
    if( G.empty() || !H().mine() ) continue;
    cliques( G );
    Order o;
    for( Mask m : G ) { Mask x = 0; for( auto v : verts( m ) ) x |= Mask(1) << ( 3 * v + 2 ); o.push_back( x ); }
    std::reverse( o.begin(), o.end() );
    cliques( o );
  }
  for( auto&& G : complexesUpToIsomorphism( 6, 1 ) )
    if( !G.empty() && H().mine() ) cliques( G );
  if( H().thorough )
    for( auto&& G : allComplexes( 6, 1 ) )
      if( !G.empty() && H().mine() ) cliques( G );

  for( auto&& K : allComplexes( 4 ) )
  {
    if( !H().mine() ) continue;
    cliqueGraph( K, weight );
    Order o = K;
    std::reverse( o.begin(), o.end() );
    cliqueGraph( o, weight );
  }
  for( auto&& K : complexesUpToIsomorphism( 5 ) )
    if( K.size() <= 31 && H().mine() ) cliqueGraph( K, weight );
  for( auto&& K : complexesUpToIsomorphism( 4 ) )
    monotoneWeights( K, 2, [&] ( const std::map<Mask, unsigned>& w )
    {
      if( H().mine() ) cliqueGraph( K, [&] ( Mask m ) { return double( w.at( m ) ) - 0.5; } );
    } );
}
