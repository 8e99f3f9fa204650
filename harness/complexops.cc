// Simplicial complex container: explicit-state exploration of operation
// histories. A state is the sequence of (simplex, weight); the real container
// is carried along and compared through all of its views after every step.

#include "big.hh"

#include <aleph/topology/filtrations/Data.hh>

#include <deque>

using namespace vf;
using namespace aleph;

using S  = topology::Simplex<int, unsigned short>;
using K_ = topology::SimplicialComplex<S>;

using Model = std::vector< std::pair<Mask, int> >;

template <class F> bool throws( F f )
{
  try { f(); } catch( const std::exception& ) { return true; }
  return false;
}

static std::string show( const Model& m )
{
  std::string s = "{";
  for( auto&& x : m ) s += ( s.size() > 1 ? "," : "" ) + strMask( x.first ) + ":" + str( x.second );
  return s + "}";
}

static Model read( const K_& K )
{
  Model m;
  for( auto&& s : K ) m.push_back( { toMask( s ), s.data() } );
  return m;
}

static int position( const Model& m, Mask s )
{
  for( std::size_t i = 0; i < m.size(); i++ ) if( m[i].first == s ) return int( i );
  return -1;
}

static bool lexLess( Mask a, Mask b )
{
  return toSimplex<S>( a ) < toSimplex<S>( b );
}

static bool closed( const Model& m )
{
  for( auto&& x : m ) for( Mask f : facets( x.first ) ) if( position( m, f ) < 0 ) return false;
  return true;
}

// Compares all views of the container with the model
static void compare( const K_& K, const Model& m, unsigned n )
{
  std::set<Mask> set;
  for( auto&& x : m ) set.insert( x.first );
  auto now = read( K );
  H().check( now == m, "sequence", cat( "expected ", show( m ), ", got ", show( now ) ) );
  H().check( K.size() == m.size() && K.empty() == m.empty(), "size", "wrong size" );
  if( now != m ) return;

  int top = -1;
  for( auto&& x : m ) top = std::max( top, dim( x.first ) );
  if( top < 0 ) H().check( throws( [&] { (void) K.dimension(); } ), "dimension", "dimension of the empty complex is not rejected" );
  else          H().check( int( K.dimension() ) == top, "dimension", "wrong dimension" );

  for( std::size_t i = 0; i < m.size(); i++ )
    H().check( toMask( K[i] ) == m[i].first && K[i].data() == m[i].second && toMask( K.at( i ) ) == m[i].first, "access", cat( "wrong simplex at position ", i ) );
  H().check( throws( [&] { (void) K.at( m.size() ); } ), "access", "position out of range is not rejected" );

  for( Mask s = 1; s < ( Mask(1) << n ); s++ )
  {
    auto t = toSimplex<S>( s, 77 );
    int p  = position( m, s );
    H().check( K.contains( t ) == ( p >= 0 ), "lookup", cat( "wrong answer for containment of ", strMask( s ) ) );
    auto it = K.find( t );
    if( p < 0 )
    {
      H().check( it == K.end(), "lookup", cat( "absent simplex ", strMask( s ), " was found" ) );
      H().check( throws( [&] { (void) K.index( t ); } ), "lookup", cat( "index of absent simplex ", strMask( s ), " is not rejected" ) );
    }
    else
    {
      H().check( it != K.end() && toMask( *it ) == s && it->data() == m[p].second, "lookup", cat( "simplex ", strMask( s ), " is not found with its weight" ) );
      H().check( int( K.index( t ) ) == p, "lookup", cat( "wrong index of ", strMask( s ) ) );
    }
  }

  Order lex, dims;
  for( auto it = K.begin_lexicographical(); it != K.end_lexicographical(); ++it ) lex.push_back( toMask( *it ) );
  {
    auto copy = K;
    Order other;
    for( auto it = copy.begin_lexicographical(); it != copy.end_lexicographical(); ++it ) other.push_back( toMask( *it ) );
    H().check( other == lex, "lexicographical", "iteration over a non-constant complex differs" );
  }
  for( auto it = K.begin_dimension(); it != K.end_dimension(); ++it ) dims.push_back( toMask( *it ) );
  H().check( std::set<Mask>( lex.begin(), lex.end() ) == set && lex.size() == set.size(), "lexicographical", "wrong set of simplices" );
  H().check( std::set<Mask>( dims.begin(), dims.end() ) == set && dims.size() == set.size(), "dimensional", "wrong set of simplices" );
  for( std::size_t i = 1; i < lex.size(); i++ )
    H().check( lexLess( lex[i-1], lex[i] ), "lexicographical", "not in lexicographical order" );
  for( std::size_t i = 1; i < dims.size(); i++ )
    H().check( dim( dims[i-1] ) <= dim( dims[i] ), "dimensional", "not in order of dimension" );
  for( int d = 0; d <= int( n ); d++ )
  {
    std::multiset<Mask> got, want;
    auto r = K.range( std::size_t( d ) );
    for( auto it = r.first; it != r.second; ++it ) got.insert( toMask( *it ) );
    for( Mask s : set ) if( dim( s ) == d ) want.insert( s );
    H().check( got == want, "range", cat( "wrong range in dimension ", d ) );
  }

  std::vector<unsigned short> v, wantV;
  K.vertices( std::back_inserter( v ) );
  Mask u = 0;
  for( Mask s : set ) u |= s;
  for( auto x : verts( u ) ) wantV.push_back( static_cast<unsigned short>( x ) );
  H().check( v == wantV, "vertices", cat( "expected the vertices ", wantV, ", got ", v ) );

  // Equality follows the order of simplices
  K_ copy( K );
  H().check( copy == K && !( copy != K ), "equality", "copy differs" );
  if( m.size() >= 2 )
  {
    std::vector<S> r( K.begin(), K.end() );
    std::reverse( r.begin(), r.end() );
    K_ rev( r.begin(), r.end() );
    H().check( rev != K && !( rev == K ), "equality", "complexes with different order are equal" );
  }
  if( !m.empty() )
  {
    K_ shorter( K.begin(), std::prev( K.end() ) );
    H().check( shorter != K && !( K == shorter ), "equality", "complexes of different size are equal" );
  }
}

struct Step
{
  std::string name;
  std::function<void( K_& )> real;
  // Transforms the model given the real outcome (only used where the order
  // is not promised); reports violations itself.
  std::function<void( Model&, const K_& )> model;
};

static void removeMask( Model& m, Mask s )
{
  m.erase( std::remove_if( m.begin(), m.end(), [&] ( const std::pair<Mask,int>& x ) { return x.first == s; } ), m.end() );
}

static void recalculate( Model& m, bool useMax, bool skip )
{
  Order o;
  for( auto&& x : m ) o.push_back( x.first );
  std::sort( o.begin(), o.end(), byDimension );
  for( Mask s : o )
  {
    if( dim( s ) == 0 || ( skip && dim( s ) == 1 ) ) continue;
    int w = useMax ? std::numeric_limits<int>::lowest() : std::numeric_limits<int>::max();
    for( Mask f : facets( s ) )
    {
      int p = position( m, f );
      if( p >= 0 ) w = useMax ? std::max( w, m[p].second ) : std::min( w, m[p].second );
    }
    m[ position( m, s ) ].second = w;
  }
}

static std::vector<Step> steps( unsigned n, int weights, const Model& cur )
{
  std::vector<Step> r;
  Mask N = Mask(1) << n;
  for( Mask s = 1; s < N; s++ )
    for( int w = 0; w < weights; w++ )
    {
      r.push_back( { cat( "push_back ", strMask( s ), ":", w ),
        [=] ( K_& K ) { K.push_back( toSimplex<S>( s, w ) ); },
        [=] ( Model& m, const K_& ) { if( position( m, s ) < 0 ) m.push_back( { s, w } ); } } );

      for( std::size_t p = 0; p < cur.size(); p++ )
      {
        bool ok = position( cur, s ) < 0 || position( cur, s ) == int( p );
        r.push_back( { cat( "replace @", p, " ", strMask( s ), ":", w ),
          [=] ( K_& K ) { bool b = K.replace( K.begin() + std::ptrdiff_t( p ), toSimplex<S>( s, w ) ); H().check( b == ok, "replace", "wrong return value" ); },
          [=] ( Model& m, const K_& ) { if( ok ) m[p] = { s, w }; } } );
      }
    }

  for( Mask s = 1; s < N; s++ )
  {
    Mask t = s % ( N - 1 ) + 1;
    r.push_back( { cat( "insert ", strMask( s ), ",", strMask( t ), ",", strMask( s ) ),
      [=] ( K_& K ) { std::vector<S> v = { toSimplex<S>( s ), toSimplex<S>( t ), toSimplex<S>( s ) }; K.insert( v.begin(), v.end() ); },
      [=] ( Model& m, const K_& ) { if( position( m, s ) < 0 ) m.push_back( { s, 0 } ); if( position( m, t ) < 0 ) m.push_back( { t, 0 } ); } } );

    if( closed( cur ) )
      r.push_back( { cat( "remove ", strMask( s ) ),
        [=] ( K_& K ) { K.remove( toSimplex<S>( s, 5 ) ); },
        [=] ( Model& m, const K_& )
        {
          if( position( m, s ) < 0 ) return;
          m.erase( std::remove_if( m.begin(), m.end(), [&] ( const std::pair<Mask,int>& x ) { return ( x.first & s ) == s; } ), m.end() );
        } } );

    r.push_back( { cat( "remove_without_validation ", strMask( s ) ),
      [=] ( K_& K ) { K.remove_without_validation( toSimplex<S>( s, 5 ) ); },
      [=] ( Model& m, const K_& ) { removeMask( m, s ); } } );
  }

  r.push_back( { "clear", [] ( K_& K ) { K.clear(); }, [] ( Model& m, const K_& ) { m.clear(); } } );
  r.push_back( { "sort", [] ( K_& K ) { K.sort(); },
    [] ( Model& m, const K_& ) { std::sort( m.begin(), m.end(), [] ( const std::pair<Mask,int>& a, const std::pair<Mask,int>& b ) { return lexLess( a.first, b.first ); } ); } } );
  r.push_back( { "sort by data", [] ( K_& K ) { K.sort( topology::filtrations::Data<S>() ); },
    [] ( Model& m, const K_& ) { std::sort( m.begin(), m.end(), [] ( const std::pair<Mask,int>& a, const std::pair<Mask,int>& b )
      {
        if( a.second != b.second ) return a.second < b.second;
        if( dim( a.first ) != dim( b.first ) ) return dim( a.first ) < dim( b.first );
        return lexLess( a.first, b.first );
      } ); } } );
  r.push_back( { "rearrange (reversed)",
    [] ( K_& K ) { std::vector< std::reference_wrapper<const S> > v; for( auto&& s : K ) v.push_back( std::cref( s ) ); std::reverse( v.begin(), v.end() ); K.rearrange( v.begin() ); },
    [] ( Model& m, const K_& ) { std::reverse( m.begin(), m.end() ); } } );
  r.push_back( { "createMissingFaces", [] ( K_& K ) { K.createMissingFaces(); },
    [] ( Model& m, const K_& K )
    {
      // Required: the old sequence is a prefix, the new simplices are exactly
      // the missing faces, each with the weight of one of its cofaces.
      Model now = read( K ), old = m;
      std::set<Mask> want;
      for( auto&& x : m ) for( Mask s = x.first; s; s = ( s - 1 ) & x.first ) want.insert( s );
      std::set<Mask> got;
      for( auto&& x : now ) got.insert( x.first );
      H().check( got == want && now.size() == want.size(), "missing-faces", cat( "expected all faces of ", show( old ), ", got ", show( now ) ) );
      H().check( now.size() >= old.size() && std::equal( old.begin(), old.end(), now.begin() ), "missing-faces", "existing simplices were changed" );
      for( std::size_t i = old.size(); i < now.size(); i++ )
      {
        bool ok = false;
        for( auto&& y : now ) if( y.first != now[i].first && ( y.first & now[i].first ) == now[i].first && y.second == now[i].second ) ok = true;
        H().check( ok, "missing-faces", "new face does not inherit the weight of a coface" );
      }
      m = now;
    } } );
  if( closed( cur ) )
    for( int useMax = 0; useMax < 2; useMax++ )
      for( int skip = 0; skip < 2; skip++ )
        r.push_back( { cat( "recalculateWeights ", useMax, skip ),
          [=] ( K_& K ) { K.recalculateWeights( useMax != 0, skip != 0 ); },
          [=] ( Model& m, const K_& ) { recalculate( m, useMax, skip ); } } );
  return r;
}

// Breadth-first exploration of all states reachable within the given depth
static void bfs( const char* name, unsigned n, int weights, unsigned depth )
{
  // Node: model state plus real container plus history
  struct Node { Model m; K_ K; std::string history; unsigned depth; };
  std::set<Model> seen;
  std::deque<Node> queue;
  queue.push_back( { {}, K_(), "", 0 } );
  seen.insert( Model() );
  while( !queue.empty() )
  {
    Node node = std::move( queue.front() );
    queue.pop_front();
    bool mine = H().mine();
    if( node.depth >= depth ) continue;
    for( auto&& s : steps( n, weights, node.m ) )
    {
      Model m = node.m;
      K_ K    = node.K;
      if( mine )
      {
        H().setCase( cat( name, " from ", show( node.m ), " (", node.history, "): ", s.name ) );
        H().state();
        H().guarded( "complex", [&]
        {
          s.real( K );
          s.model( m, K );
          H().step();
          compare( K, m, n );
          // The original is not affected by changes of the copy
          H().trace();
          H().sample();
        } );
      }
      else
      {
        H().alive();
        try { s.real( K ); m = read( K ); } catch( ... ) { continue; }
      }
      // States that differ from the model have been reported; continue from
      // the real state.
      Model now = read( K );
      bool small = std::all_of( now.begin(), now.end(), [&] ( const std::pair<Mask,int>& x ) { return x.second >= 0 && x.second < std::max( weights, 1 ); } );
      if( small && now.size() < ( std::size_t(1) << n ) && seen.insert( now ).second )
        queue.push_back( { now, K, node.depth < 3 ? node.history + ( node.history.empty() ? "" : "; " ) + s.name : node.history, node.depth + 1 } );
    }
  }
  H().note( std::string( "distinct container states " ) + name, H().shard == 0 ? seen.size() : 0 );
}

// Families of larger complexes ------------------------------------------

using BigModel = std::vector< std::pair<Face, int> >;

static void compareBig( const K_& K, const BigModel& m, const char* what )
{
  H().step();
  bool ok = K.size() == m.size() && K.empty() == m.empty();
  std::size_t i = 0;
  for( auto&& s : K ) { ok = ok && i < m.size() && toFace( s ) == m[i].first && s.data() == m[i].second; i++; }
  H().check( ok, "sequence", cat( what, ": sequence of simplices is wrong" ) );
  if( !ok ) return;
  std::map<std::size_t, std::multiset<Face>> byDim;
  std::set<unsigned> vertices;
  for( i = 0; i < m.size(); i++ )
  {
    S t( m[i].first.begin(), m[i].first.end(), 77 );
    auto it = K.find( t );
    H().check( K.contains( t ) && it != K.end() && it->data() == m[i].second && K.index( t ) == i && toFace( K[i] ) == m[i].first && toFace( K.at( i ) ) == m[i].first,
               "lookup", cat( what, ": lookup of ", m[i].first, " fails" ) );
    byDim[ m[i].first.size() ].insert( m[i].first );
    vertices.insert( m[i].first.begin(), m[i].first.end() );
    Face absent = m[i].first;
    absent.push_back( 60000 );
    H().check( !K.contains( S( absent.begin(), absent.end() ) ), "lookup", cat( what, ": absent simplex is found" ) );
  }
  H().check( throws( [&] { (void) K.at( m.size() ); } ), "access", "position out of range is not rejected" );
  if( !m.empty() ) H().check( K.dimension() + 1 == byDim.rbegin()->first, "dimension", cat( what, ": wrong dimension" ) );
  std::vector<S> lex( K.begin_lexicographical(), K.end_lexicographical() ), dims( K.begin_dimension(), K.end_dimension() );
  H().check( lex.size() == m.size() && dims.size() == m.size() && std::set<S>( lex.begin(), lex.end() ).size() == m.size() && std::set<S>( dims.begin(), dims.end() ).size() == m.size(),
             "lexicographical", cat( what, ": wrong set of simplices" ) );
  for( i = 1; i < lex.size(); i++ ) H().check( lex[i-1] < lex[i], "lexicographical", cat( what, ": not in lexicographical order" ) );
  for( i = 1; i < dims.size(); i++ ) H().check( dims[i-1].dimension() <= dims[i].dimension(), "dimensional", cat( what, ": not in order of dimension" ) );
  for( std::size_t d = 0; d < 10; d++ )
  {
    std::multiset<Face> got;
    auto r = K.range( d );
    for( auto it = r.first; it != r.second; ++it ) got.insert( toFace( *it ) );
    H().check( got == byDim[ d + 1 ], "range", cat( what, ": wrong range in dimension ", d ) );
  }
  std::vector<unsigned short> v;
  K.vertices( std::back_inserter( v ) );
  H().check( std::vector<unsigned>( v.begin(), v.end() ) == std::vector<unsigned>( vertices.begin(), vertices.end() ), "vertices", cat( what, ": wrong vertices" ) );
  K_ copy( K );
  H().check( copy == K && !( copy != K ), "equality", "copy differs" );
}

static void large( const std::string& name, const Big& o )
{
  H().setCase( name );
  if( H().skip() ) return;
  H().state();
  H().guarded( "complex", [&]
  {
    BigModel m;
    for( std::size_t i = 0; i < o.size(); i++ ) m.push_back( { o[i], int( i * 7 % 19 ) - 9 } );
    auto make = [&] { K_ K; for( auto&& x : m ) K.push_back( S( x.first.begin(), x.first.end(), x.second ) ); return K; };
    K_ K = make();
    compareBig( K, m, "push_back" );
    for( auto&& x : m ) K.push_back( S( x.first.begin(), x.first.end(), 50 ) );
    compareBig( K, m, "repeated push_back" );
    std::vector<S> all;
    for( auto&& x : m ) all.push_back( S( x.first.begin(), x.first.end(), x.second ) );
    compareBig( K_( all.begin(), all.end() ), m, "range" );
    // Reversed order and sorting
    BigModel s = m;
    K.sort();
    std::sort( s.begin(), s.end(), [] ( const std::pair<Face,int>& a, const std::pair<Face,int>& b ) { return S( a.first.begin(), a.first.end() ) < S( b.first.begin(), b.first.end() ); } );
    compareBig( K, s, "sort" );
    // Removal
    for( std::size_t i = 0; i < m.size(); i += 1 + m.size() / 8 )
    {
      K_ L = make();
      L.remove( S( m[i].first.begin(), m[i].first.end() ) );
      BigModel r;
      for( auto&& x : m ) if( !std::includes( x.first.begin(), x.first.end(), m[i].first.begin(), m[i].first.end() ) ) r.push_back( x );
      compareBig( L, r, "remove" );
      K_ M = make();
      M.remove_without_validation( S( m[i].first.begin(), m[i].first.end() ) );
      r = m;
      r.erase( r.begin() + long( i ) );
      compareBig( M, r, "remove_without_validation" );
      K_ N = make();
      S other( m[i].first.begin(), m[i].first.end(), 99 );
      H().check( N.replace( N.begin() + long( i ), other ), "replace", "replacing a weight fails" );
      r = m;
      r[i].second = 99;
      compareBig( N, r, "replace" );
    }
    // Faces
    {
      std::set<Face> faces;
      for( auto&& f : o ) for( auto&& g : facetsOf( f ) ) faces.insert( g );
      BigModel maximal;
      for( auto&& x : m ) if( !faces.count( x.first ) ) maximal.push_back( x );
      K_ L;
      for( auto&& x : maximal ) L.push_back( S( x.first.begin(), x.first.end(), x.second ) );
      L.createMissingFaces();
      H().step();
      auto now = toBig( L );
      H().check( now.size() == o.size() && std::set<Face>( now.begin(), now.end() ) == std::set<Face>( o.begin(), o.end() ), "missing-faces", "wrong set of faces" );
      bool ok = now.size() >= maximal.size();
      for( std::size_t i = 0; ok && i < maximal.size(); i++ ) ok = now[i] == maximal[i].first && L[i].data() == maximal[i].second;
      H().check( ok, "missing-faces", "existing simplices were changed" );
    }
    // Recalculation
    for( int useMax = 0; useMax < 2; useMax++ ) for( int skip = 0; skip < 2; skip++ )
    {
      K_ L = make();
      L.recalculateWeights( useMax != 0, skip != 0 );
      std::map<Face, int> w;
      for( auto&& x : m ) w[ x.first ] = x.second;
      BigModel r = m;
      for( auto&& x : r )
      {
        std::size_t base = skip ? 2 : 1;
        if( x.first.size() <= base ) continue;
        int y = useMax ? -1000 : 1000;
        auto use = [&] ( int z ) { y = useMax ? std::max( y, z ) : std::min( y, z ); };
        for( std::size_t i = 0; i < x.first.size(); i++ )
        {
          if( base == 1 ) use( w.at( { x.first[i] } ) );
          else for( std::size_t j = i + 1; j < x.first.size(); j++ ) use( w.at( { x.first[i], x.first[j] } ) );
        }
        x.second = y;
      }
      compareBig( L, r, "recalculateWeights" );
    }
    K.clear();
    compareBig( K, {}, "clear" );
    H().trace();
  } );
}

void explore()
{
  bigComplexes( H().thorough ? 200 : 100, [&] ( const std::string& name, const Big& K )
  {
    for( unsigned kind = 0; kind < 3; kind++ )
      if( H().mine() )
        large( cat( name, ", order ", kind ), relabelled( ordered( K, kind == 2 ? 3 : kind ), kind ) );
  } );

  bfs( "2 vertices, 3 weights, closure", 2, 3, 1000 );
  bfs( "3 vertices, unweighted", 3, 1, H().thorough ? 1000 : 4 );
  bfs( "3 vertices, 2 weights", 3, 2, H().thorough ? 4 : 3 );

  // Removal and face creation in all complexes on four vertices, in three
  // insertion orders
  for( auto&& K0 : complexesUpToIsomorphism( 4 ) )
    for( int order = 0; order < 3; order++ )
    {
      Order o = K0;
      if( order == 1 ) std::reverse( o.begin(), o.end() );
      if( order == 2 ) std::sort( o.begin(), o.end() );
      for( Mask s = 1; s < 16; s++ )
      {
        if( !H().mine() ) continue;
        H().setCase( cat( "remove ", strMask( s ), " from ", strOrder( o ) ) );
        H().state();
        H().guarded( "complex", [&]
        {
          K_ K = toComplex<K_>( o );
          K.remove( toSimplex<S>( s ) );
          H().step();
          Model m;
          bool present = std::find( o.begin(), o.end(), s ) != o.end();
          for( Mask x : o ) if( !present || ( x & s ) != s ) m.push_back( { x, 0 } );
          compare( K, m, 4 );
          H().trace();
        } );
      }
      // Removal by reference to a stored simplex
      for( std::size_t i = 0; i < o.size(); i++ )
      {
        if( !H().mine() ) continue;
        H().setCase( cat( "remove stored simplex at ", i, " of ", strOrder( o ) ) );
        H().state();
        H().guarded( "complex", [&]
        {
          K_ K = toComplex<K_>( o );
          K.remove( K[i] );
          H().step();
          Model m;
          for( Mask x : o ) if( ( x & o[i] ) != o[i] ) m.push_back( { x, 0 } );
          compare( K, m, 4 );
          H().trace();
        } );
      }
    }

  // Completion of all families of at most three generators on four vertices
  for( Mask a = 1; a < 16; a++ ) for( Mask b = 1; b < 16; b++ ) for( Mask c = 1; c < 16; c++ )
  {
    if( !H().mine() ) continue;
    H().setCase( cat( "complete ", strMask( a ), " ", strMask( b ), " ", strMask( c ) ) );
    H().state();
    H().guarded( "complex", [&]
    {
      K_ K = { toSimplex<S>( a, 1 ), toSimplex<S>( b, 2 ), toSimplex<S>( c, 3 ) };
      Model m = read( K );
      auto s = steps( 2, 1, m );
      for( auto&& x : s ) if( x.name == "createMissingFaces" ) { x.real( K ); x.model( m, K ); }
      H().step();
      compare( K, m, 4 );
      H().trace();
    } );
  }
}
