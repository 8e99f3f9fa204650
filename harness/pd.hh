#ifndef VF_PD_HH
#define VF_PD_HH

// Persistence diagrams as lists of pairs.

#include "common.hh"

#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>

namespace vf
{

using Pair  = std::pair<double, double>;
using Pairs = std::vector<Pair>;

const double INF = std::numeric_limits<double>::infinity();

template <class T> aleph::PersistenceDiagram<T> toDiagram( const Pairs& p, std::size_t dimension = 0 )
{
  aleph::PersistenceDiagram<T> D;
  for( auto&& x : p )
  {
    if( x.second == INF ) D.add( T( x.first ) );
    else                  D.add( T( x.first ), T( x.second ) );
  }
  D.setDimension( dimension );
  return D;
}

template <class T> Pairs toPairs( const aleph::PersistenceDiagram<T>& D )
{
  Pairs p;
  for( auto&& x : D ) p.push_back( { double( x.x() ), x.isUnpaired() ? INF : double( x.y() ) } );
  return p;
}

// All coordinates multiplied by a power of two: all results scale exactly
inline Pairs scaled( Pairs p, double c )
{
  for( auto& x : p ) { x.first *= c; x.second *= c; }
  return p;
}

const double SCALES[] = { std::ldexp( 1, -40 ), std::ldexp( 1, -20 ), std::ldexp( 1, -7 ), std::ldexp( 1, 12 ), std::ldexp( 1, 40 ) };

inline std::string show( const Pairs& p )
{
  std::string s = "{";
  for( auto&& x : p ) s += ( s.size() > 1 ? " (" : "(" ) + str( x.first ) + "," + str( x.second ) + ")";
  return s + "}";
}

// All multisets of at most n points from an alphabet
inline std::vector<Pairs> allDiagrams( const Pairs& alphabet, std::size_t n )
{
  std::vector<Pairs> r;
  for( std::size_t k = 0; k <= n; k++ )
    forAllMultisets( k, unsigned( alphabet.size() ), [&] ( const std::vector<unsigned>& x )
    {
      Pairs p;
      for( auto i : x ) p.push_back( alphabet[i] );
      r.push_back( p );
    } );
  return r;
}

inline double chebyshev( const Pair& a, const Pair& b )
{
  if( a.second == INF && b.second == INF ) return std::abs( a.first - b.first );
  return std::max( std::abs( a.first - b.first ), std::abs( a.second - b.second ) );
}

inline double toDiagonal( const Pair& a ) { return std::abs( a.second - a.first ) / 2; }

// Calls f(costs) for every matching of A and B in which points may also be
// matched with the diagonal.
template <class F> void allMatchings( const Pairs& A, const Pairs& B, F f )
{
  std::vector<double> costs;
  std::vector<char> used( B.size(), 0 );
  std::function<void( std::size_t )> rec = [&] ( std::size_t i )
  {
    if( i == A.size() )
    {
      std::size_t n = costs.size();
      for( std::size_t j = 0; j < B.size(); j++ ) if( !used[j] ) costs.push_back( toDiagonal( B[j] ) );
      f( costs );
      costs.resize( n );
      return;
    }
    costs.push_back( toDiagonal( A[i] ) );
    rec( i + 1 );
    costs.pop_back();
    for( std::size_t j = 0; j < B.size(); j++ )
      if( !used[j] )
      {
        used[j] = 1;
        costs.push_back( chebyshev( A[i], B[j] ) );
        rec( i + 1 );
        costs.pop_back();
        used[j] = 0;
      }
  };
  rec( 0 );
}

// Families of larger diagrams: f( name, points ). Points are finite, and their
// coordinates are integers of small absolute value.
template <class F> void bigDiagrams( std::size_t limit, F f )
{
  // The last size exceeds 256
  for( std::size_t n = 1; n <= limit || ( limit >= 24 && n == 300 ); n = n == limit && limit < 300 ? 300 : n + 1 )
  {
    Pairs stairs, nested, births, deaths, repeated, mixed, shuffled, spread, above;
    for( std::size_t i = 0; i < n; i++ )
    {
      double x = double( i );
      stairs.push_back( { x, x + 2 } );
      nested.push_back( { -x, x + 1 } );
      births.push_back( { 0, x + 1 } );
      deaths.push_back( { x - 3, double( n ) } );
      repeated.push_back( i % 5 == 4 ? Pair{ 1, 7 } : Pair{ 2, 4 } );
      mixed.push_back( i % 3 ? Pair{ x, x + double( i % 4 ) } : Pair{ x, x } );
      double s = double( ( i * 37 + 11 ) % 23 ), t = double( ( i * 53 + 7 ) % 19 );
      shuffled.push_back( { std::min( s, t ), std::max( s, t ) + 1 } );
      spread.push_back( { x * x / 2, x * x / 2 + x + 1 } );
      above.push_back( { s + t + 1, s - 2 } );
    }
    f( cat( "stairs ", n ), stairs );
    f( cat( "nested ", n ), nested );
    f( cat( "equal births ", n ), births );
    f( cat( "equal deaths ", n ), deaths );
    f( cat( "repeated ", n ), repeated );
    f( cat( "with diagonal points ", n ), mixed );
    f( cat( "shuffled ", n ), shuffled );
    f( cat( "spread ", n ), spread );
    f( cat( "superlevel ", n ), above );
  }
}

inline std::vector< std::pair<std::string, Pairs> > bigDiagrams( std::size_t limit )
{
  std::vector< std::pair<std::string, Pairs> > r;
  bigDiagrams( limit, [&] ( const std::string& name, const Pairs& p ) { r.push_back( { name, p } ); } );
  return r;
}

// Smallest costs of a perfect assignment by shortest augmenting paths
inline double assignmentCosts( const std::vector< std::vector<double> >& a )
{
  std::size_t n = a.size();
  std::vector<double> u( n + 1, 0 ), v( n + 1, 0 );
  std::vector<std::size_t> p( n + 1, 0 ), way( n + 1, 0 );
  for( std::size_t i = 1; i <= n; i++ )
  {
    p[0] = i;
    std::size_t j0 = 0;
    std::vector<double> least( n + 1, INF );
    std::vector<char> used( n + 1, 0 );
    do
    {
      used[j0] = 1;
      std::size_t i0 = p[j0], j1 = 0;
      double delta = INF;
      for( std::size_t j = 1; j <= n; j++ )
        if( !used[j] )
        {
          double c = a[i0-1][j-1] - u[i0] - v[j];
          if( c < least[j] ) { least[j] = c; way[j] = j0; }
          if( least[j] < delta ) { delta = least[j]; j1 = j; }
        }
      for( std::size_t j = 0; j <= n; j++ )
        if( used[j] ) { u[ p[j] ] += delta; v[j] -= delta; } else least[j] -= delta;
      j0 = j1;
    }
    while( p[j0] != 0 );
    do { std::size_t j1 = way[j0]; p[j0] = p[j1]; j0 = j1; } while( j0 );
  }
  double s = 0;
  for( std::size_t j = 1; j <= n; j++ ) s += a[ p[j] - 1 ][ j - 1 ];
  return s;
}

// Costs of matching two diagrams: the first rows and columns are the points,
// the others the diagonal
inline std::vector< std::vector<double> > matchingCosts( const Pairs& a, const Pairs& b, double power )
{
  std::size_t n = a.size(), m = b.size(), N = n + m;
  std::vector< std::vector<double> > c( N, std::vector<double>( N, 0 ) );
  for( std::size_t i = 0; i < N; i++ ) for( std::size_t j = 0; j < N; j++ )
  {
    if( i < n && j < m )  c[i][j] = std::pow( chebyshev( a[i], b[j] ), power );
    if( i < n && j >= m ) c[i][j] = std::pow( toDiagonal( a[i] ), power );
    if( i >= n && j < m ) c[i][j] = std::pow( toDiagonal( b[j] ), power );
  }
  return c;
}

// Smallest threshold at which the entries of a matrix admit a perfect matching
inline double thresholdMatching( const std::vector< std::vector<double> >& c )
{
  std::size_t N = c.size();
  if( N == 0 ) return 0;
  std::set<double> s;
  for( auto&& r : c ) s.insert( r.begin(), r.end() );
  std::vector<double> values( s.begin(), s.end() );
  auto perfect = [&] ( double t )
  {
    std::vector<int> mate( N, -1 );
    std::vector<char> seen;
    std::function<bool( std::size_t )> augment = [&] ( std::size_t i )
    {
      for( std::size_t j = 0; j < N; j++ )
        if( c[i][j] <= t && !seen[j] )
        {
          seen[j] = 1;
          if( mate[j] < 0 || augment( std::size_t( mate[j] ) ) ) { mate[j] = int( i ); return true; }
        }
      return false;
    };
    for( std::size_t i = 0; i < N; i++ ) { seen.assign( N, 0 ); if( !augment( i ) ) return false; }
    return true;
  };
  std::size_t lo = 0, hi = values.size() - 1;
  while( lo < hi ) { std::size_t mid = ( lo + hi ) / 2; if( perfect( values[mid] ) ) hi = mid; else lo = mid + 1; }
  return values[lo];
}

} // namespace vf

#endif
