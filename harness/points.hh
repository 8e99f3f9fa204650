#ifndef VF_POINTS_HH
#define VF_POINTS_HH

// Point sets and distances of the reference models.

#include "ref.hh"

#include <aleph/containers/PointCloud.hh>

namespace vf
{

using Pt     = std::vector<double>;
using Points = std::vector<Pt>;

inline std::string strPoints( const Points& P )
{
  std::string s;
  for( auto&& p : P )
  {
    s += "(";
    for( std::size_t i = 0; i < p.size(); i++ ) s += ( i ? "," : "" ) + str( p[i] );
    s += ")";
  }
  return s;
}

template <class T> aleph::containers::PointCloud<T> toCloud( const Points& P, std::size_t d )
{
  aleph::containers::PointCloud<T> c( P.size(), d );
  for( std::size_t i = 0; i < P.size(); i++ )
  {
    std::vector<T> v( P[i].begin(), P[i].end() );
    c.set( i, v.begin(), v.end() );
  }
  return c;
}

inline double squared( const Pt& a, const Pt& b )
{
  double s = 0;
  for( std::size_t i = 0; i < a.size(); i++ ) s += ( a[i] - b[i] ) * ( a[i] - b[i] );
  return s;
}

inline double euclidean( const Pt& a, const Pt& b ) { return std::sqrt( squared( a, b ) ); }

inline double manhattan( const Pt& a, const Pt& b )
{
  double s = 0;
  for( std::size_t i = 0; i < a.size(); i++ ) s += std::fabs( a[i] - b[i] );
  return s;
}

inline double hamming( const Pt& a, const Pt& b )
{
  double s = 0;
  for( std::size_t i = 0; i < a.size(); i++ ) s += a[i] != b[i] ? 1 : 0;
  return s;
}

// Calls f for clouds of very small and very large magnitude: all coordinates
// are multiplied by a power of two.
template <class F> void magnitudes( const Points& P, F f )
{
  for( int e : { -30, -12, 10, 30 } )
  {
    unit() = std::ldexp( 1, e );
    Points Q = P;
    for( auto& p : Q ) for( auto& x : p ) x *= unit();
    f( const_cast<const Points&>( Q ) );
  }
  unit() = 1;
}

// All points of the grid given by one alphabet per axis.
inline Points gridPoints( const std::vector< std::vector<double> >& axes )
{
  Points P = { {} };
  for( auto&& a : axes )
  {
    Points Q;
    for( auto&& p : P )
      for( double x : a )
      {
        Pt q = p;
        q.push_back( x );
        Q.push_back( q );
      }
    P = Q;
  }
  return P;
}

// All sequences (or multisets) of n points.
template <class F> void forAllPoints( const Points& grid, std::size_t n, bool ordered, F f )
{
  auto g = [&] ( const std::vector<unsigned>& v )
  {
    Points P;
    for( auto i : v ) P.push_back( grid[i] );
    f( const_cast<const Points&>( P ) );
  };
  if( ordered ) forAllVectors( n, unsigned( grid.size() ), g );
  else          forAllMultisets( n, unsigned( grid.size() ), g );
}

// Families of larger point sets with integer coordinates: f( name, points, dimension )
template <class F> void bigClouds( std::size_t limit, F f )
{
  for( std::size_t n = 5; n <= limit; n++ )
  {
    Points line, squares, zigzag, shuffled, twice, diagonal, parabola;
    for( std::size_t i = 0; i < n; i++ )
    {
      double x = double( i );
      line.push_back( { x } );
      squares.push_back( { x * x / 4 - 10 } );
      zigzag.push_back( { x, double( i % 2 ) * 2 } );
      shuffled.push_back( { double( ( i * 37 + 11 ) % 101 ), double( ( i * 53 + 7 ) % 11 ) } );
      twice.push_back( { double( i / 2 * 3 ), double( i / 4 ) } );
      diagonal.push_back( { x, -x, 2 * x } );
      parabola.push_back( { x, x * x, double( i % 3 ) } );
    }
    f( cat( "line of ", n ), line, 1 );
    f( cat( "squares up to ", n ), squares, 1 );
    f( cat( "zigzag of ", n ), zigzag, 2 );
    f( cat( "shuffled points ", n ), shuffled, 2 );
    f( cat( "repeated points ", n ), twice, 2 );
    f( cat( "diagonal of ", n ), diagonal, 3 );
    f( cat( "parabola of ", n ), parabola, 3 );
  }
  // More than 256 points
  if( limit >= 30 )
  {
    Points line, plane;
    for( std::size_t i = 0; i < 270; i++ )
    {
      line.push_back( { double( ( i * 7 ) % 270 ) } );
      plane.push_back( { double( i % 16 ), double( i / 16 ) } );
    }
    f( "line of 270", line, 1 );
    f( "plane of 270", plane, 2 );
  }
  for( unsigned a = 2; a <= 8; a++ ) for( unsigned b = 2; b <= a; b++ )
    if( std::size_t( a ) * b <= limit && a * b > 4 )
    {
      std::vector<double> A, B;
      for( unsigned i = 0; i < a; i++ ) A.push_back( i );
      for( unsigned i = 0; i < b; i++ ) B.push_back( 2.0 * i );
      f( cat( "grid ", a, " ", b ), gridPoints( { A, B } ), 2 );
    }
  for( std::size_t d = 4; d <= 12 && d + 1 <= limit; d++ )
  {
    Points axes = { Pt( d, 0 ) }, prefix = { Pt( d, 0 ) };
    for( std::size_t i = 0; i < d; i++ )
    {
      axes.push_back( Pt( d, 0 ) );
      axes.back()[i] = double( i + 1 );
      prefix.push_back( prefix.back() );
      prefix.back()[i] = 2;
    }
    f( cat( "axes of dimension ", d ), axes, d );
    f( cat( "steps of dimension ", d ), prefix, d );
  }
}

// Radii that separate all values, and the values themselves where they are
// integers, i.e. where "closer than" is decided without rounding.
inline std::vector<double> radii( std::vector<double> values )
{
  std::sort( values.begin(), values.end() );
  values.erase( std::unique( values.begin(), values.end(), [] ( double a, double b ) { return std::fabs( a - b ) < 1e-9 * unit(); } ), values.end() );
  std::vector<double> r;
  for( std::size_t i = 0; i < values.size(); i++ )
  {
    if( values[i] / unit() == std::floor( values[i] / unit() ) ) r.push_back( values[i] );
    r.push_back( i + 1 < values.size() ? ( values[i] + values[i+1] ) / 2 : values[i] + std::max( unit(), values[i] / 2 ) );
  }
  if( r.empty() ) r.push_back( unit() );
  return r;
}

} // namespace vf

#endif
