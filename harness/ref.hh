#ifndef VF_REF_HH
#define VF_REF_HH

// Reference models. Simplices are bit masks of their vertices, complexes are
// families of masks. Nothing in here uses the library.

#include "common.hh"

namespace vf
{

using Mask  = std::uint32_t;
using Order = std::vector<Mask>; // simplices in filtration order

inline int dim( Mask m ) { return __builtin_popcount( m ) - 1; }

inline std::vector<unsigned> verts( Mask m )
{
  std::vector<unsigned> v;
  for( unsigned i = 0; i < 32; i++ )
    if( m & ( Mask(1) << i ) )
      v.push_back( i );
  return v;
}

inline std::vector<Mask> facets( Mask m )
{
  std::vector<Mask> f;
  if( dim( m ) <= 0 ) return f;
  for( unsigned v : verts( m ) )
    f.push_back( m & ~( Mask(1) << v ) );
  return f;
}

inline std::string strMask( Mask m )
{
  std::string s;
  for( unsigned v : verts( m ) )
    s += char( v < 10 ? '0' + v : 'a' + v - 10 );
  return s;
}

inline std::string strOrder( const Order& o )
{
  std::string s = "{";
  for( std::size_t i = 0; i < o.size(); i++ )
    s += ( i ? "," : "" ) + strMask( o[i] );
  return s + "}";
}

inline bool byDimension( Mask a, Mask b )
{
  return dim( a ) != dim( b ) ? dim( a ) < dim( b ) : a < b;
}

// All simplicial complexes whose vertices are a subset of {0,..,n-1},
// including the empty one. Each is sorted by dimension.
inline std::vector<Order> allComplexes( unsigned n, int maxDim = 31 )
{
  std::vector<Mask> masks;
  for( Mask m = 1; m < ( Mask(1) << n ); m++ )
    if( dim( m ) <= maxDim )
      masks.push_back( m );
  std::sort( masks.begin(), masks.end(), byDimension );

  std::vector<Order> result;
  std::vector<char> in( Mask(1) << n, 0 );
  Order cur;

  std::function<void( std::size_t )> rec = [&] ( std::size_t i )
  {
    if( i == masks.size() )
    {
      result.push_back( cur );
      return;
    }
    rec( i + 1 );
    for( Mask f : facets( masks[i] ) )
      if( !in[f] )
        return;
    in[ masks[i] ] = 1;
    cur.push_back( masks[i] );
    rec( i + 1 );
    cur.pop_back();
    in[ masks[i] ] = 0;
  };
  rec( 0 );
  return result;
}

inline Mask permute( Mask m, const std::vector<unsigned>& p )
{
  Mask r = 0;
  for( unsigned v : verts( m ) )
    r |= Mask(1) << p[v];
  return r;
}

inline Order permuteComplex( const Order& K, const std::vector<unsigned>& p )
{
  Order L;
  for( Mask m : K )
    L.push_back( permute( m, p ) );
  std::sort( L.begin(), L.end(), byDimension );
  return L;
}

// One representative per isomorphism class.
inline std::vector<Order> complexesUpToIsomorphism( unsigned n, int maxDim = 31 )
{
  std::set<Order> seen;
  std::vector<Order> reps;
  for( auto&& K : allComplexes( n, maxDim ) )
  {
    if( seen.count( K ) )
      continue;
    reps.push_back( K );
    std::vector<unsigned> p( n );
    for( unsigned i = 0; i < n; i++ ) p[i] = i;
    do seen.insert( permuteComplex( K, p ) );
    while( std::next_permutation( p.begin(), p.end() ) );
  }
  return reps;
}

// All linear extensions of the face order. If canonical is set, the vertices
// are required to appear in increasing order.
template <class F> void linearExtensions( const Order& K, bool canonical, F f )
{
  Order cur;
  std::unordered_set<Mask> in;
  std::vector<char> used( K.size(), 0 );
  std::function<void()> rec = [&] ()
  {
    if( cur.size() == K.size() )
    {
      f( const_cast<const Order&>( cur ) );
      return;
    }
    bool vertexDone = false;
    for( std::size_t i = 0; i < K.size(); i++ )
    {
      if( used[i] ) continue;
      bool ok = true;
      for( Mask g : facets( K[i] ) )
        if( !in.count( g ) ) { ok = false; break; }
      if( !ok ) continue;
      if( canonical && dim( K[i] ) == 0 )
      {
        if( vertexDone ) continue;
        vertexDone = true;
      }
      used[i] = 1; in.insert( K[i] ); cur.push_back( K[i] );
      rec();
      cur.pop_back(); in.erase( K[i] ); used[i] = 0;
    }
  };
  rec();
}

inline unsigned rank( std::vector<std::uint64_t> cols )
{
  unsigned r = 0;
  for( std::size_t i = 0; i < cols.size(); i++ )
  {
    if( !cols[i] ) continue;
    ++r;
    std::uint64_t low = cols[i] & ( ~cols[i] + 1 );
    for( std::size_t k = i + 1; k < cols.size(); k++ )
      if( cols[k] & low )
        cols[k] ^= cols[i];
  }
  return r;
}

// Boundary matrix of an order, columns as bit sets over positions. Up to 64
// simplices.
inline std::vector<std::uint64_t> boundaryColumns( const Order& o )
{
  std::unordered_map<Mask, unsigned> pos;
  for( unsigned i = 0; i < o.size(); i++ ) pos[ o[i] ] = i;
  std::vector<std::uint64_t> c( o.size(), 0 );
  for( unsigned i = 0; i < o.size(); i++ )
    for( Mask f : facets( o[i] ) )
      c[i] |= std::uint64_t(1) << pos.at( f );
  return c;
}

struct RefPairing
{
  std::vector< std::pair<unsigned,unsigned> > pairs; // (creator, destroyer)
  std::vector<unsigned> essential;                   // unpaired creators
};

// Pairing from ranks of lower-left submatrices: (i,j) is a pair if and only if
// r(i,j) - r(i+1,j) + r(i+1,j-1) - r(i,j-1) = 1, where r(i,j) is the rank of
// rows >= i and columns <= j. This characterizes the pairing without any
// reduction.
inline RefPairing refPairing( const std::vector<std::uint64_t>& c )
{
  unsigned n = unsigned( c.size() );
  // r[i][j]: rows >= i, columns < j
  std::vector< std::vector<int> > r( n + 1, std::vector<int>( n + 1, 0 ) );
  for( unsigned i = 0; i < n; i++ )
  {
    // Incremental elimination over the columns
    std::vector<std::uint64_t> basis;
    std::uint64_t mask = ~std::uint64_t(0) << i;
    for( unsigned j = 0; j < n; j++ )
    {
      std::uint64_t x = c[j] & mask;
      for( auto b : basis )
        if( x & ( b & ( ~b + 1 ) ) )
          x ^= b;
      if( x )
        basis.push_back( x );
      r[i][j+1] = int( basis.size() );
    }
  }
  RefPairing p;
  std::vector<char> used( n, 0 );
  for( unsigned i = 0; i < n; i++ )
    for( unsigned j = 0; j < n; j++ )
      if( r[i][j+1] - r[i+1][j+1] + r[i+1][j] - r[i][j] == 1 )
      {
        p.pairs.push_back( { i, j } );
        used[i] = used[j] = 1;
      }
  for( unsigned i = 0; i < n; i++ )
    if( !used[i] )
      p.essential.push_back( i );
  return p;
}

// Betti numbers by rank computations, dimensions 0..D.
inline std::vector<unsigned> betti( const Order& o, int D )
{
  std::vector<unsigned> n( D + 2, 0 ), rk( D + 3, 0 );
  auto c = boundaryColumns( o );
  for( int d = 0; d <= D + 1; d++ )
  {
    std::vector<std::uint64_t> cols;
    for( std::size_t i = 0; i < o.size(); i++ )
      if( dim( o[i] ) == d )
      {
        ++n[d];
        cols.push_back( c[i] );
      }
    rk[d] = rank( cols );
  }
  std::vector<unsigned> b( D + 1 );
  for( int d = 0; d <= D; d++ )
    b[d] = n[d] - rk[d] - rk[d+1];
  return b;
}

inline int maxDim( const Order& o )
{
  int d = -1;
  for( Mask m : o ) d = std::max( d, dim( m ) );
  return d;
}

// All weight assignments from {0,..,base-1} that do not decrease from a face
// to a coface. K is sorted by dimension.
template <class F> void monotoneWeights( const Order& K, unsigned base, F f )
{
  std::map<Mask, unsigned> w;
  std::function<void( std::size_t )> rec = [&] ( std::size_t i )
  {
    if( i == K.size() )
    {
      f( const_cast<const std::map<Mask, unsigned>&>( w ) );
      return;
    }
    unsigned lo = 0;
    for( Mask g : facets( K[i] ) )
      lo = std::max( lo, w.at( g ) );
    for( unsigned x = lo; x < base; x++ )
    {
      w[ K[i] ] = x;
      rec( i + 1 );
    }
    w.erase( K[i] );
  };
  rec( 0 );
}

template <class W> std::string strWeighted( const Order& o, W w )
{
  std::string s = "{";
  for( std::size_t i = 0; i < o.size(); i++ )
    s += ( i ? "," : "" ) + strMask( o[i] ) + ":" + str( w( o[i] ) );
  return s + "}";
}

// Graphs --------------------------------------------------------------

struct Edge { unsigned u, v; };

inline std::vector<Edge> allEdges( unsigned n )
{
  std::vector<Edge> e;
  for( unsigned u = 0; u < n; u++ )
    for( unsigned v = u + 1; v < n; v++ )
      e.push_back( { u, v } );
  return e;
}

} // namespace vf

#endif
