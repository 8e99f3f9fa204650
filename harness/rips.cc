// Rips expansion: all small weighted graphs against brute-force cliques.

#include "big.hh"

#include <aleph/geometry/RipsExpander.hh>
#include <aleph/geometry/RipsExpanderTopDown.hh>

using namespace vf;

using W = std::map<Mask, double>;

static bool isClique( const W& g, Mask m )
{
  auto v = verts( m );
  for( std::size_t i = 0; i < v.size(); i++ )
    for( std::size_t j = i + 1; j < v.size(); j++ )
      if( !g.count( ( Mask(1) << v[i] ) | ( Mask(1) << v[j] ) ) )
        return false;
  return true;
}

static double maxOver( const W& w, Mask m, int d )
{
  double x = -1e9;
  for( auto&& p : w )
    if( dim( p.first ) == d && ( p.first & m ) == p.first )
      x = std::max( x, p.second );
  return x;
}

static std::set<Mask> keys( const W& w ) { std::set<Mask> s; for( auto&& p : w ) s.insert( p.first ); return s; }
static std::string show( const std::set<Mask>& s ) { std::string r; for( auto m : s ) r += strMask( m ) + " "; return r; }
static std::string show( const W& s ) { std::string r; for( auto&& m : s ) r += strMask( m.first ) + ":" + str( m.second ) + " "; return r; }

template <class D> W weights( const aleph::topology::SimplicialComplex< aleph::topology::Simplex<D, unsigned> >& K )
{
  W w;
  for( auto&& s : K ) w[ toMask( s ) ] = double( s.data() );
  return w;
}

// D: data type; stretch: vertex v is represented by identifier stretch*v+shift
template <class D> void graph( const Order& o, const W& g, bool full )
{
  using S  = aleph::topology::Simplex<D, unsigned>;
  using K_ = aleph::topology::SimplicialComplex<S>;
  K_ K = toComplex<K_>( o, [&] ( Mask m ) { return D( g.at( m ) ); } );

  aleph::geometry::RipsExpander<K_>        up;
  aleph::geometry::RipsExpanderTopDown<K_> down;

  Mask all = 0;
  for( Mask m : o ) all |= m;
  std::vector<Mask> cliques;
  for( Mask m = all; m; m = ( m - 1 ) & all )
    if( isClique( g, m ) )
      cliques.push_back( m );
  std::sort( cliques.begin(), cliques.end(), byDimension );

  int top = cliques.empty() ? 0 : dim( cliques.back() );
  for( int k = full ? 0 : top; k <= top + 1; k++ )
  {
    std::set<Mask> e;
    for( Mask m : cliques ) if( dim( m ) <= k ) e.insert( m );

    auto A = up( K, unsigned( k ) );
    auto a = weights<D>( A );
    H().step();
    H().check( keys( a ) == e && A.size() == e.size(), "expansion", cat( "expansion up to ", k, " should be ", show( e ), ", got ", show( keys( a ) ) ) );
    for( auto&& p : a )
      if( dim( p.first ) <= 1 )
        H().check( p.second == g.at( p.first ), "weights", cat( "weight of ", strMask( p.first ), " changed to ", p.second ) );

    auto B = down( K, unsigned( k ) );
    auto b = weights<D>( B );
    H().step();
    H().check( keys( b ) == e && B.size() == e.size(), "expansion-top-down", cat( "top-down expansion up to ", k, " should be ", show( e ), ", got ", show( keys( b ) ) ) );

    if( full )
      for( int low = 1; low <= k; low++ )
      {
        std::set<Mask> f;
        for( Mask m : e ) if( dim( m ) >= low ) f.insert( m );
        auto C = weights<D>( down( K, unsigned( k ), unsigned( low ) ) );
        H().step();
        H().check( keys( C ) == f, "expansion-top-down", cat( "top-down expansion from ", low, " to ", k, " should be ", show( f ), ", got ", show( keys( C ) ) ) );
      }

    // Weights of the faces
    {
      auto Aw = weights<D>( up.assignMaximumWeight( A ) );
      auto Bw = weights<D>( down.assignMaximumWeight( B, K ) );
      auto Bv = weights<D>( down.assignMaximumWeight( B, K, 0 ) );
      H().step( 3 );
      W ea, eb, ev;
      for( Mask m : e )
      {
        ea[m] = dim( m ) <= 1 ? g.at( m ) : maxOver( g, m, 1 );
        eb[m] = dim( m ) == 0 ? b.at( m ) : maxOver( g, m, 1 );
        ev[m] = maxOver( g, m, 0 );
      }
      H().check( Aw == ea, "maximum-weight", cat( "maximum weights should be ", show( ea ), ", got ", show( Aw ) ) );
      H().check( Bw == eb, "maximum-weight-top-down", cat( "maximum edge weights should be ", show( eb ), ", got ", show( Bw ) ) );
      H().check( Bv == ev, "maximum-weight-top-down", cat( "maximum vertex weights should be ", show( ev ), ", got ", show( Bv ) ) );
    }
    // Vertex data
    {
      std::vector<D> data;
      std::map<unsigned, D> byVertex;
      for( unsigned v : verts( all ) )
      {
        byVertex[v] = D( 3 - int( ( v * 5 ) % 7 ) );
        data.push_back( byVertex[v] );
      }
      // The order of the simplices must not matter
      std::vector<S> reversed( A.begin(), A.end() );
      std::reverse( reversed.begin(), reversed.end() );
      K_ R( reversed.begin(), reversed.end() );
      auto mr = weights<D>( up.assignMaximumData( R, data.begin(), data.end() ) );
      auto mx = weights<D>( up.assignMaximumData( A, data.begin(), data.end() ) );
      H().check( mr == mx, "data-order", cat( "maximum data depends on the order of simplices: ", show( mx ), " or ", show( mr ) ) );
      auto wr = weights<D>( up.assignMaximumWeight( R ) ), wa = weights<D>( up.assignMaximumWeight( A ) );
      H().check( wr == wa, "weight-order", cat( "maximum weights depend on the order of simplices: ", show( wa ), " or ", show( wr ) ) );
      H().step( 3 );
      auto mn = weights<D>( up.assignData( A, data.begin(), data.end(), std::numeric_limits<D>::max(), [] ( D x, D y ) { return std::min( x, y ); } ) );
      H().step( 2 );
      for( Mask m : e )
      {
        D hi = std::numeric_limits<D>::lowest(), lo = std::numeric_limits<D>::max();
        for( unsigned v : verts( m ) ) { hi = std::max( hi, byVertex[v] ); lo = std::min( lo, byVertex[v] ); }
        H().check( mx.count( m ) && mx[m] == double( hi ), "maximum-data", cat( "maximum data of ", strMask( m ), " should be ", hi ) );
        H().check( mn.count( m ) && mn[m] == double( lo ), "minimum-data", cat( "minimum data of ", strMask( m ), " should be ", lo ) );
      }
      H().check( mx.size() == e.size() && mn.size() == e.size(), "maximum-data", "assigning data changes the complex" );
    }
  }
}

template <class D> void run( const Order& o, const W& g, const char* name, bool full )
{
  H().setCase( cat( name, " ", strWeighted( o, [&] ( Mask m ) { return g.at( m ); } ) ) );
  H().state();
  H().guarded( "expansion", [&] { graph<D>( o, g, full ); H().trace(); H().sample(); } );
}

static Order stretch( const Order& o, unsigned factor, unsigned shift )
{
  Order r;
  for( Mask m : o )
  {
    Mask x = 0;
    for( unsigned v : verts( m ) ) x |= Mask(1) << ( factor * v + shift );
    r.push_back( x );
  }
  return r;
}

// Families of larger graphs
static void large( const std::string& name, unsigned n, const std::vector< std::pair<unsigned, unsigned> >& edges, unsigned labels )
{
  using S  = aleph::topology::Simplex<double, unsigned>;
  using K_ = aleph::topology::SimplicialComplex<S>;
  H().setCase( cat( name, ", labels ", labels ) );
  if( H().skip() ) return;
  H().state();
  H().guarded( "expansion", [&]
  {
    std::map<Face, double> g;
    Big o;
    for( unsigned i = 0; i < n; i++ ) { o.push_back( { label( i, n, labels ) } ); g[ o.back() ] = double( i % 5 ) - 20; }
    for( std::size_t i = 0; i < edges.size(); i++ )
    {
      Face e = { label( edges[i].first, n, labels ), label( edges[i].second, n, labels ) };
      std::sort( e.begin(), e.end() );
      o.push_back( e );
      g[e] = double( ( i * 7 ) % 13 ) - 6;
    }
    if( labels == 2 ) std::reverse( o.begin(), o.end() );
    auto K = bigComplex<K_>( o, [&] ( const Face& f, std::size_t ) { return g.at( f ); } );

    // Cliques by extension
    std::vector< std::set<Face> > cliques( 1 );
    for( auto&& x : g ) if( x.first.size() == 1 ) cliques[0].insert( x.first );
    while( !cliques.back().empty() )
    {
      std::set<Face> next;
      for( auto&& c : cliques.back() ) for( auto&& v : cliques[0] )
      {
        if( v[0] <= c.back() ) continue;
        bool ok = true;
        for( auto u : c ) if( !g.count( { u, v[0] } ) ) { ok = false; break; }
        if( !ok ) continue;
        auto d = c;
        d.push_back( v[0] );
        next.insert( d );
      }
      cliques.push_back( next );
    }
    cliques.pop_back();
    for( std::size_t k = cliques.size() <= 4 ? 0 : cliques.size() - 3; k <= cliques.size(); k++ )
    {
      std::set<Face> e;
      for( std::size_t i = 0; i < cliques.size() && i <= k; i++ ) e.insert( cliques[i].begin(), cliques[i].end() );
      aleph::geometry::RipsExpander<K_>        up;
      aleph::geometry::RipsExpanderTopDown<K_> down;
      auto A = up( K, unsigned( k ) );
      auto B = down( K, unsigned( k ) );
      H().step( 2 );
      auto a = toBig( A ), b = toBig( B );
      H().check( std::set<Face>( a.begin(), a.end() ) == e && a.size() == e.size(), "expansion", cat( "expansion up to ", k, " is wrong" ) );
      H().check( std::set<Face>( b.begin(), b.end() ) == e && b.size() == e.size(), "expansion-top-down", cat( "top-down expansion up to ", k, " is wrong" ) );
      auto Aw = up.assignMaximumWeight( A );
      auto Bw = down.assignMaximumWeight( B, K );
      std::vector<double> data;
      std::map<unsigned, double> byVertex;
      for( auto&& v : cliques[0] ) { byVertex[ v[0] ] = double( ( v[0] * 5 ) % 17 ) - 9; data.push_back( byVertex[ v[0] ] ); }
      auto Ad = up.assignMaximumData( A, data.begin(), data.end() );
      H().step( 3 );
      for( auto L : { &Aw, &Bw } )
      {
        std::size_t m = 0;
        for( auto&& s : *L )
        {
          auto f = toFace( s );
          double w = f.size() == 1 ? g.at( f ) : -1e9;
          for( std::size_t i = 0; i < f.size(); i++ ) for( std::size_t j = i + 1; j < f.size(); j++ ) w = std::max( w, g.at( { f[i], f[j] } ) );
          if( L == &Aw || f.size() > 1 ) H().check( s.data() == w, L == &Aw ? "maximum-weight" : "maximum-weight-top-down", cat( "weight of ", f, " should be ", w, ", got ", s.data() ) );
          m++;
        }
        H().check( m == e.size(), "maximum-weight", "assigning weights changes the complex" );
      }
      for( auto&& s : Ad )
      {
        double w = -1e9;
        for( auto v : s ) w = std::max( w, byVertex[v] );
        H().check( s.data() == w, "maximum-data", cat( "maximum data of ", toFace( s ), " should be ", w ) );
      }
    }
    H().trace();
  } );
}

void explore()
{
  bigGraphs( H().thorough ? 90 : 40, [&] ( const std::string& name, unsigned n, const std::vector< std::pair<unsigned, unsigned> >& edges )
  {
    if( n < 6 ) return;
    for( unsigned labels = 0; labels < ( n <= 20 ? 4 : 2 ); labels++ )
      if( H().mine() ) large( name, n, edges, labels );
  } );

  unsigned n = 5;
  // All labelled graphs, a few weightings, insertion orders and identifiers
  for( auto&& G : allComplexes( n, 1 ) )
  {
    if( !H().mine() ) continue;
    for( int k = 0; k < 3; k++ )
    {
      Order o = k == 1 ? stretch( G, 2, 1 ) : G;
      if( k ) std::reverse( o.begin(), o.end() );
      if( k == 2 ) std::sort( o.begin(), o.end() );
      W g;
      for( Mask m : o ) g[m] = dim( m ) == 0 ? -double( ( m * 3 ) % 5 ) - 3 : double( ( m * 5 ) % 7 ) - ( k == 1 ? 7 : 3 );
      run<double>( o, g, "double", true );
      if( k == 1 ) run<int>( o, g, "int", false );
      if( k == 2 ) run<float>( o, g, "float", false );
    }
  }
  // Six vertices up to isomorphism, i.e. up to 5-simplices
  for( auto&& G : complexesUpToIsomorphism( 6, 1 ) )
  {
    if( !H().mine() ) continue;
    W g;
    for( Mask m : G ) g[m] = dim( m ) == 0 ? -1 : double( ( m * 5 ) % 7 );
    run<double>( G, g, "double", true );
  }
  // All weights
  for( auto&& G : allComplexes( 3, 1 ) )
    forAllVectors( G.size(), 3, [&] ( const std::vector<unsigned>& w )
    {
      if( !H().mine() ) return;
      static const double value[] = { -1, 0, 2 };
      W g;
      for( std::size_t i = 0; i < G.size(); i++ ) g[ G[i] ] = value[ w[i] ];
      run<double>( G, g, "double", true );
    } );
  for( auto&& G : H().thorough ? allComplexes( 4, 1 ) : complexesUpToIsomorphism( 4, 1 ) )
  {
    std::size_t v = 0;
    for( Mask m : G ) v += dim( m ) == 0;
    forAllVectors( G.size() - v, 3, [&] ( const std::vector<unsigned>& w )
    {
      if( !H().mine() ) return;
      static const double value[] = { -2, -1, 3 };
      W g;
      for( std::size_t i = 0; i < G.size(); i++ ) g[ G[i] ] = i < v ? -3.0 + double( i % 2 ) : value[ w[i-v] ];
      run<double>( G, g, "double", false );
    } );
  }
}
