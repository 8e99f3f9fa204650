#ifndef VF_BIG_HH
#define VF_BIG_HH

// Parametrised families of complexes and graphs that go on where the complete
// enumeration of all small inputs ends: every member up to the stated size is
// visited, with several orders and labellings each.

#include "bridge.hh"

namespace vf
{

using Face = std::vector<unsigned>; // ascending vertices
using Big  = std::vector<Face>;     // simplices, faces first

inline void sortFaces( Big& K )
{
  for( auto&& s : K ) std::sort( s.begin(), s.end() );
  std::sort( K.begin(), K.end(), [] ( const Face& a, const Face& b ) { return a.size() != b.size() ? a.size() < b.size() : a < b; } );
  K.erase( std::unique( K.begin(), K.end() ), K.end() );
}

// All faces of the given simplices
inline Big closure( const Big& maximal )
{
  std::set<Face> all;
  for( auto s : maximal )
  {
    std::sort( s.begin(), s.end() );
    for( std::uint64_t m = 1; m < ( std::uint64_t(1) << s.size() ); m++ )
    {
      Face f;
      for( std::size_t i = 0; i < s.size(); i++ ) if( m >> i & 1 ) f.push_back( s[i] );
      all.insert( f );
    }
  }
  Big K( all.begin(), all.end() );
  sortFaces( K );
  return K;
}

inline std::vector<Face> facetsOf( const Face& s )
{
  std::vector<Face> r;
  if( s.size() < 2 ) return r;
  for( std::size_t i = 0; i < s.size(); i++ )
  {
    Face f = s;
    f.erase( f.begin() + long( i ) );
    r.push_back( f );
  }
  return r;
}

inline unsigned verticesOf( const Big& K )
{
  unsigned n = 0;
  for( auto&& s : K ) n = std::max( n, s.back() + 1 );
  return n;
}

inline Big simplexSkeleton( unsigned n, unsigned k )
{
  Big K;
  for( std::uint64_t m = 1; m < ( std::uint64_t(1) << n ); m++ )
    if( unsigned( __builtin_popcountll( m ) ) <= k + 1 )
    {
      Face f;
      for( unsigned i = 0; i < n; i++ ) if( m >> i & 1 ) f.push_back( i );
      K.push_back( f );
    }
  sortFaces( K );
  return K;
}

// Surfaces made of an a x b grid of squares; kind: 0 disk, 1 annulus, 2 torus,
// 3 Klein bottle, 4 Moebius strip
inline Big gridSurface( unsigned a, unsigned b, unsigned kind )
{
  bool wrapX = kind != 0, wrapY = kind == 2 || kind == 3, twist = kind == 3 || kind == 4;
  unsigned nx = wrapX ? a : a + 1, ny = wrapY ? b : b + 1;
  auto id = [&] ( unsigned x, unsigned y )
  {
    if( wrapX && x == a ) { x = 0; if( twist ) y = wrapY ? ( b - y % b ) % b : b - y; }
    if( wrapY ) y %= b;
    (void) ny;
    return y * nx + x;
  };
  Big T;
  for( unsigned y = 0; y < b; y++ ) for( unsigned x = 0; x < a; x++ )
  {
    T.push_back( { id( x, y ), id( x + 1, y ), id( x, y + 1 ) } );
    T.push_back( { id( x + 1, y ), id( x + 1, y + 1 ), id( x, y + 1 ) } );
  }
  return closure( T );
}

// Graphs: f( name, number of vertices, edges )
template <class F> void bigGraphs( unsigned limit, F f )
{
  using E = std::vector< std::pair<unsigned, unsigned> >;
  for( unsigned n = 1; n <= limit; n++ )
  {
    E path, cycle, star, empty, matching, wheel, ladder, tree, comb, fan2;
    for( unsigned i = 0; i + 1 < n; i++ ) { path.push_back( { i, i + 1 } ); star.push_back( { 0, i + 1 } ); }
    cycle = path;
    if( n >= 3 ) cycle.push_back( { 0, n - 1 } );
    for( unsigned i = 0; i + 1 < n; i += 2 ) matching.push_back( { i, i + 1 } );
    for( unsigned i = 1; i < n; i++ ) tree.push_back( { ( i - 1 ) / 2, i } );
    for( unsigned i = 1; i < n; i++ ) { wheel.push_back( { 0, i } ); if( n >= 5 ) wheel.push_back( { std::min( i, i + 1 < n ? i + 1 : 1 ), std::max( i, i + 1 < n ? i + 1 : 1 ) } ); }
    for( unsigned i = 0; i < n; i++ ) for( unsigned k : { 1u, 2u } ) if( i + k < n ) ladder.push_back( { i, i + k } );
    f( cat( "empty graph ", n ), n, empty );
    if( n < 2 ) continue;
    f( cat( "path ", n ), n, path );
    f( cat( "star ", n ), n, star );
    f( cat( "cycle ", n ), n, cycle );
    f( cat( "matching ", n ), n, matching );
    f( cat( "binary tree ", n ), n, tree );
    f( cat( "wheel ", n ), n, wheel );
    f( cat( "squared path ", n ), n, ladder );
  }
  for( unsigned n = 3; n <= std::min( limit, 9u ); n++ )
  {
    E complete;
    for( unsigned i = 0; i < n; i++ ) for( unsigned j = i + 1; j < n; j++ ) complete.push_back( { i, j } );
    f( cat( "complete graph ", n ), n, complete );
    // Complete multipartite graphs with parts of size two and three
    for( unsigned k : { 2u, 3u } )
    {
      E turan;
      for( auto&& e : complete ) if( e.first / k != e.second / k ) turan.push_back( e );
      f( cat( "parts of size ", k, " on ", n, " vertices" ), n, turan );
    }
    for( unsigned a = 1; a < n; a++ )
    {
      E bipartite, barbell;
      for( auto&& e : complete )
      {
        if( ( e.first < a ) != ( e.second < a ) ) bipartite.push_back( e );
        else barbell.push_back( e );
      }
      f( cat( "complete bipartite graph ", a, " ", n - a ), n, bipartite );
      f( cat( "two cliques ", a, " ", n - a ), n, barbell );
      barbell.push_back( { 0, n - 1 } );
      std::sort( barbell.begin(), barbell.end() );
      barbell.erase( std::unique( barbell.begin(), barbell.end() ), barbell.end() );
      f( cat( "barbell ", a, " ", n - a ), n, barbell );
    }
  }
}

// Complexes: f( name, complex ), with at most the given number of simplices
template <class F> void bigComplexes( std::size_t limit, F g )
{
  auto f = [&] ( const std::string& name, const Big& K ) { if( !K.empty() && K.size() <= limit ) g( name, K ); };
  for( unsigned n = 5; n <= 9; n++ ) for( unsigned k = 1; k < n; k++ )
  {
    std::size_t size = 0, c = 1;
    for( unsigned i = 1; i <= k + 1; i++ ) { c = c * ( n + 1 - i ) / i; size += c; }
    if( size <= limit ) f( cat( "skeleton ", k, " of the simplex on ", n, " vertices" ), simplexSkeleton( n, k ) );
  }
  bigGraphs( unsigned( limit ), [&] ( const std::string& name, unsigned n, const std::vector< std::pair<unsigned, unsigned> >& edges )
  {
    if( n + edges.size() > limit || n + edges.size() < 9 ) return;
    Big K;
    for( unsigned i = 0; i < n; i++ ) K.push_back( { i } );
    for( auto&& e : edges ) K.push_back( { e.first, e.second } );
    sortFaces( K );
    f( name, K );
  } );
  static const char* kinds[] = { "disk", "annulus", "torus", "Klein bottle", "Moebius strip" };
  for( unsigned kind = 0; kind < 5; kind++ )
    for( unsigned a = kind ? 3 : 1; a <= 7; a++ ) for( unsigned b = kind == 2 || kind == 3 ? 3 : 1; b <= 7; b++ )
      if( std::size_t( a ) * b * 6 <= 2 * limit ) f( cat( kinds[kind], " ", a, " ", b ), gridSurface( a, b, kind ) );
  // Cross-polytopes
  for( unsigned d = 2; d <= 5; d++ )
  {
    Big T;
    for( unsigned m = 0; m < ( 1u << d ); m++ )
    {
      Face s;
      for( unsigned i = 0; i < d; i++ ) s.push_back( 2 * i + ( m >> i & 1 ) );
      T.push_back( s );
    }
    f( cat( "cross-polytope ", d ), closure( T ) );
  }
  f( "projective plane", closure( { {0,1,4}, {0,1,5}, {0,2,3}, {0,2,5}, {0,3,4}, {1,2,3}, {1,2,4}, {1,3,5}, {2,4,5}, {3,4,5} } ) );
  f( "dunce hat", closure( { {0,1,3}, {1,2,3}, {0,2,4}, {0,1,4}, {1,2,4}, {2,3,4}, {0,2,5}, {0,3,5}, {3,4,5}, {0,1,6}, {0,4,6}, {1,2,7}, {0,2,7}, {0,1,7}, {4,5,6}, {2,5,7}, {1,5,6}, {1,5,7} } ) );
  // Disjoint triangles, filled or not, with and without common vertex
  for( unsigned n = 2; n <= 24; n++ )
    for( unsigned filled = 0; filled < 3; filled++ ) for( unsigned wedge = 0; wedge < 2; wedge++ )
    {
      Big T;
      for( unsigned i = 0; i < n; i++ )
      {
        unsigned a = wedge ? 0 : 3 * i, b = wedge ? 2 * i + 1 : 3 * i + 1, c = b + 1;
        if( filled == 1 || ( filled == 2 && i % 2 ) ) T.push_back( { a, b, c } );
        else for( Face e : { Face{ a, b }, Face{ b, c }, Face{ a, c } } ) T.push_back( e );
      }
      f( cat( n, filled == 1 ? " filled" : filled ? " alternating" : "", " triangles", wedge ? " at a vertex" : "" ), closure( T ) );
    }
  // More than 256 simplices
  if( limit < 256 )
  {
    Big path;
    for( unsigned i = 0; i < 131; i++ ) path.push_back( { i, i + 1 } );
    g( "path 132", closure( path ) );
    g( "torus 9 5", gridSurface( 9, 5, 2 ) );
  }
}

// Orders of a complex in which faces come first: 0 by dimension, 1 lower star,
// 2 lower star of the reversed vertices, 3 lower star of shuffled vertices,
// 4 as 3 with simplices of the same vertex in the order of their dimension last
inline Big ordered( Big K, unsigned kind )
{
  unsigned n = verticesOf( K );
  auto value = [&] ( unsigned v ) { return kind == 2 ? n - v : kind >= 3 ? ( v * 37 + 11 ) % 101 * 1000 + v : v; };
  if( kind == 0 ) { sortFaces( K ); return K; }
  auto key = [&] ( const Face& s )
  {
    std::vector<unsigned> k;
    for( auto v : s ) k.push_back( value( v ) );
    std::sort( k.rbegin(), k.rend() );
    if( kind == 4 ) k.insert( k.begin() + 1, unsigned( s.size() ) );
    return k;
  };
  std::vector< std::pair< std::vector<unsigned>, Face > > o;
  for( auto&& s : K ) o.push_back( { key( s ), s } );
  std::sort( o.begin(), o.end() );
  for( std::size_t i = 0; i < o.size(); i++ ) K[i] = o[i].second;
  return K;
}

// Labellings: 0 as they are, 1 with gaps and an offset, 2 reversed, 3 shuffled
inline unsigned label( unsigned v, unsigned n, unsigned kind )
{
  if( kind == 1 ) return 3 + 7 * v;
  if( kind == 2 ) return n - 1 - v;
  if( kind == 3 ) return ( v * 37 + 11 ) % 101 + 101 * ( v / 101 );
  return v;
}

inline Big relabelled( Big K, unsigned kind )
{
  unsigned n = verticesOf( K );
  for( auto&& s : K )
  {
    for( auto&& v : s ) v = label( v, n, kind );
    std::sort( s.begin(), s.end() );
  }
  return K;
}

// Reference pairing by a dense left-to-right reduction
struct BigPairing
{
  std::vector< std::pair<unsigned, unsigned> > pairs;
  std::vector<unsigned> essential;
};

inline std::vector< std::vector<unsigned> > bigColumns( const Big& o )
{
  std::map<Face, unsigned> index;
  std::vector< std::vector<unsigned> > c;
  for( auto&& s : o )
  {
    std::vector<unsigned> x;
    for( auto&& f : facetsOf( s ) ) x.push_back( index.at( f ) );
    std::sort( x.begin(), x.end() );
    index[s] = unsigned( c.size() );
    c.push_back( x );
  }
  return c;
}

inline BigPairing bigPairing( const Big& o )
{
  auto columns = bigColumns( o );
  std::size_t n = o.size(), words = ( n + 63 ) / 64;
  std::vector< std::vector<std::uint64_t> > R( n, std::vector<std::uint64_t>( words, 0 ) );
  for( std::size_t j = 0; j < n; j++ ) for( auto i : columns[j] ) R[j][ i / 64 ] |= std::uint64_t(1) << ( i % 64 );
  auto low = [&] ( const std::vector<std::uint64_t>& c ) -> long
  {
    for( std::size_t w = words; w > 0; w-- ) if( c[w-1] ) return long( 64 * ( w - 1 ) ) + 63 - __builtin_clzll( c[w-1] );
    return -1;
  };
  std::vector<long> owner( n, -1 );
  std::vector<char> negative( n, 0 );
  BigPairing r;
  for( std::size_t j = 0; j < n; j++ )
  {
    long l;
    while( ( l = low( R[j] ) ) >= 0 && owner[ std::size_t( l ) ] >= 0 )
      for( std::size_t w = 0; w < words; w++ ) R[j][w] ^= R[ std::size_t( owner[ std::size_t( l ) ] ) ][w];
    if( l >= 0 ) { owner[ std::size_t( l ) ] = long( j ); negative[j] = 1; }
  }
  for( std::size_t i = 0; i < n; i++ )
  {
    if( owner[i] >= 0 ) r.pairs.push_back( { unsigned( i ), unsigned( owner[i] ) } );
    else if( !negative[i] ) r.essential.push_back( unsigned( i ) );
  }
  return r;
}

// The functions of ref.hh for faces, so that a check can be a template
inline int dim( const Face& f ) { return int( f.size() ) - 1; }
inline const Face& verts( const Face& f ) { return f; }
inline std::vector<Face> facets( const Face& f ) { return facetsOf( f ); }
inline BigPairing pairingOf( const Big& o ) { return bigPairing( o ); }
inline RefPairing pairingOf( const Order& o ) { return refPairing( boundaryColumns( o ) ); }
inline bool byFaceDimension( const Face& a, const Face& b ) { return a.size() != b.size() ? a.size() < b.size() : a < b; }
inline int maxDim( const Big& o ) { int d = -1; for( auto&& s : o ) d = std::max( d, dim( s ) ); return d; }
template <class E> E single( unsigned v );
template <> inline Mask single<Mask>( unsigned v ) { return Mask(1) << v; }
template <> inline Face single<Face>( unsigned v ) { return { v }; }

// Betti numbers in the dimensions 0..D
inline std::vector<unsigned> bigBetti( const Big& K, unsigned D )
{
  Big o = ordered( K, 0 );
  std::vector<unsigned> b( D + 1, 0 );
  for( auto i : bigPairing( o ).essential ) if( o[i].size() <= D + 1 ) b[ o[i].size() - 1 ]++;
  return b;
}

inline std::vector<unsigned> betti( const Big& o, int D ) { return bigBetti( o, unsigned( D ) ); }

template <class K, class W> K bigComplex( const Big& o, W weight )
{
  using S = typename K::ValueType;
  std::vector<S> s;
  for( std::size_t i = 0; i < o.size(); i++ ) s.push_back( S( o[i].begin(), o[i].end(), weight( o[i], i ) ) );
  return K( s.begin(), s.end() );
}

template <class K> K bigComplex( const Big& o )
{
  return bigComplex<K>( o, [] ( const Face&, std::size_t ) { return typename K::ValueType::DataType(); } );
}

template <class K, class W> K toComplex( const Big& o, W weight )
{
  return bigComplex<K>( o, [&] ( const Face& f, std::size_t ) { return weight( f ); } );
}

// Faces as sets of vertices, for at most 32 vertices
inline Order toMasks( const Big& K )
{
  Order o;
  for( auto&& s : K ) { Mask m = 0; for( auto v : s ) m |= Mask(1) << v; o.push_back( m ); }
  return o;
}

template <class S> Face toFace( const S& s )
{
  Face f( s.begin(), s.end() );
  std::sort( f.begin(), f.end() );
  return f;
}

template <class K> Big toBig( const K& k )
{
  Big r;
  for( auto&& s : k ) r.push_back( toFace( s ) );
  return r;
}

} // namespace vf

#endif
