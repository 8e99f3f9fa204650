// Curvature estimates of point clouds: all small sets of grid points and of
// points on circles and spheres.

#include "points.hh"

#include <aleph/geometry/TangentSpace.hh>

using namespace vf;

using Row    = std::vector<double>;
using Square = std::vector<Row>;

// Eigenvalues and eigenvectors (rows) of a symmetric matrix by cyclic Jacobi
// rotations.
static void jacobi( Square A, Row& values, Square& vectors )
{
  std::size_t d = A.size();
  vectors.assign( d, Row( d ) );
  for( std::size_t i = 0; i < d; i++ ) vectors[i][i] = 1;
  for( unsigned sweep = 0; sweep < 60; sweep++ )
    for( std::size_t p = 0; p < d; p++ )
      for( std::size_t q = p + 1; q < d; q++ )
      {
        if( std::fabs( A[p][q] ) < 1e-300 ) continue;
        double t = 0.5 * std::atan2( 2 * A[p][q], A[q][q] - A[p][p] ), c = std::cos( t ), s = std::sin( t );
        for( std::size_t k = 0; k < d; k++ ) { double x = A[k][p], y = A[k][q]; A[k][p] = c * x - s * y; A[k][q] = s * x + c * y; }
        for( std::size_t k = 0; k < d; k++ ) { double x = A[p][k], y = A[q][k]; A[p][k] = c * x - s * y; A[q][k] = s * x + c * y; }
        for( std::size_t k = 0; k < d; k++ ) { double x = vectors[p][k], y = vectors[q][k]; vectors[p][k] = c * x - s * y; vectors[q][k] = s * x + c * y; }
      }
  values.clear();
  for( std::size_t i = 0; i < d; i++ ) values.push_back( A[i][i] );
}

static double curvature( const Row& u )
{
  double n = 0;
  for( std::size_t i = 1; i + 1 < u.size(); i++ ) n += u[i] * u[i];
  double q = u.back(), s = n - 4 * u[0] * q;
  return s > 0 ? 2 * std::fabs( q ) / std::sqrt( s ) : 0;
}

// The null vector of the rows if the null space has dimension one.
static bool nullVector( Square M, std::size_t columns, Row& u )
{
  std::vector<std::size_t> pivots;
  std::size_t r = 0;
  for( std::size_t c = 0; c < columns && r < M.size(); c++ )
  {
    std::size_t best = r;
    for( std::size_t i = r; i < M.size(); i++ ) if( std::fabs( M[i][c] ) > std::fabs( M[best][c] ) ) best = i;
    if( std::fabs( M[best][c] ) < 1e-9 ) continue;
    std::swap( M[r], M[best] );
    for( std::size_t i = 0; i < M.size(); i++ )
      if( i != r )
      {
        double f = M[i][c] / M[r][c];
        for( std::size_t j = 0; j < columns; j++ ) M[i][j] -= f * M[r][j];
      }
    pivots.push_back( c );
    r++;
  }
  if( r + 1 != columns ) return false;
  std::size_t freeColumn = 0;
  while( std::find( pivots.begin(), pivots.end(), freeColumn ) != pivots.end() ) freeColumn++;
  u.assign( columns, 0 );
  u[freeColumn] = 1;
  for( std::size_t i = 0; i < r; i++ ) u[ pivots[i] ] = -M[i][freeColumn] / M[i][ pivots[i] ];
  return true;
}

// Reference: the algebraic sphere u that minimises the weighted sum of squares
// of u0 + u.x + u_{d+1} |x|^2 under the constraint u C u = 1. Returns a
// negative number if the minimiser is not unique.
static double reference( const Points& P, std::size_t d, std::size_t i, unsigned k )
{
  std::vector<double> all;
  for( auto&& p : P ) all.push_back( euclidean( P[i], p ) );
  auto sorted = all;
  std::sort( sorted.begin(), sorted.end() );
  double h = sorted[ std::min<std::size_t>( k, P.size() ) - 1 ];

  Square D;
  Row W;
  for( std::size_t j = 0; j < P.size(); j++ )
  {
    if( all[j] > h - 1e-9 ) continue;
    double x = all[j] / h, w = std::pow( 1 - x * x, 4 ), q = 0;
    Row r = { 1 };
    for( double y : P[j] ) { r.push_back( y ); q += y * y; }
    r.push_back( q );
    D.push_back( r );
    W.push_back( w );
  }
  std::size_t m = d + 2;
  Row u;
  if( nullVector( D, m, u ) )
  {
    // An exact fit satisfies the constraint only if it has a positive radius
    double n = -4 * u[0] * u[m-1];
    for( std::size_t a = 1; a + 1 < m; a++ ) n += u[a] * u[a];
    if( n > 1e-9 ) { H().note( "exact" ); return curvature( u ); }
  }

  Square A( m, Row( m ) ), L = A;
  for( std::size_t r = 0; r < D.size(); r++ ) for( std::size_t a = 0; a < m; a++ ) for( std::size_t b = 0; b < m; b++ ) A[a][b] += W[r] * D[r][a] * D[r][b];
  for( std::size_t a = 0; a < m; a++ )
    for( std::size_t b = 0; b <= a; b++ )
    {
      double s = A[a][b];
      for( std::size_t c = 0; c < b; c++ ) s -= L[a][c] * L[b][c];
      if( a == b ) { if( s < 1e-6 ) return -1; L[a][a] = std::sqrt( s ); }
      else L[a][b] = s / L[b][b];
    }
  // Inverse of L
  Square I( m, Row( m ) );
  for( std::size_t c = 0; c < m; c++ )
    for( std::size_t a = c; a < m; a++ )
    {
      double s = a == c ? 1 : 0;
      for( std::size_t b = c; b < a; b++ ) s -= L[a][b] * I[b][c];
      I[a][c] = s / L[a][a];
    }
  Square C( m, Row( m ) ), B = C;
  for( std::size_t a = 1; a + 1 < m; a++ ) C[a][a] = 1;
  C[0][m-1] = C[m-1][0] = -2;
  for( std::size_t a = 0; a < m; a++ ) for( std::size_t b = 0; b < m; b++ ) for( std::size_t x = 0; x < m; x++ ) for( std::size_t y = 0; y < m; y++ ) B[a][b] += I[a][x] * C[x][y] * I[b][y];
  Row values;
  Square vectors;
  jacobi( B, values, vectors );
  std::size_t best = 0;
  for( std::size_t a = 1; a < m; a++ ) if( values[a] > values[best] ) best = a;
  for( std::size_t a = 0; a < m; a++ ) if( a != best && values[a] > values[best] * ( 1 - 1e-3 ) ) return -1;
  u.assign( m, 0 );
  for( std::size_t a = 0; a < m; a++ ) for( std::size_t b = 0; b < m; b++ ) u[a] += I[b][a] * vectors[best][b];
  H().note( "least squares" );
  return curvature( u );
}

template <class T> static void estimate( const Points& P, std::size_t d, double eps )
{
  auto pc = toCloud<T>( P, d );
  for( unsigned k = unsigned( d + 1 ); k <= P.size(); k++ )
    H().guarded( "curvature", [&]
    {
      aleph::geometry::TangentSpace ts;
      auto c = ts( pc, k );
      H().step();
      H().check( c.size() == P.size(), "curvature-size", cat( c.size(), " estimates for ", P.size(), " points" ) );
      for( std::size_t i = 0; i < P.size() && i < c.size(); i++ )
      {
        double r = reference( P, d, i, k );
        if( r >= 0 ) H().check( close( c[i], r, eps ), "curvature", cat( "k=", k, " point ", i, ": ", c[i], ", expected ", r ) );
        else H().note( "ambiguous" );
      }
    } );
}

static void subsets( const char* what, const Points& grid, std::size_t d, std::size_t lo, std::size_t hi )
{
  for( unsigned m = 0; m < ( 1u << grid.size() ); m++ )
  {
    std::size_t n = std::size_t( __builtin_popcount( m ) );
    if( n < lo || n > hi ) continue;
    if( !H().mine() ) continue;
    Points P;
    for( std::size_t i = 0; i < grid.size(); i++ ) if( m >> i & 1 ) P.push_back( grid[i] );
    // Both directions of listing the points
    for( int reversed = 0; reversed < 2; reversed++ )
    {
      H().setCase( cat( what, " ", strPoints( P ) ) );
      if( !H().skip() )
      {
        H().sample();
        H().state();
        estimate<double>( P, d, 1e-5 );
        if( H().thorough ) estimate<float>( P, d, 1e-5 );
      }
      std::reverse( P.begin(), P.end() );
    }
  }
}

void explore()
{
  bool deep = H().thorough;

  Points circle = { {5,0}, {4,3}, {3,4}, {0,5}, {-3,4}, {-4,3}, {-5,0}, {-4,-3}, {-3,-4}, {0,-5}, {3,-4}, {4,-3} };
  subsets( "circle", circle, 2, 4, deep ? 8 : 6 );
  for( auto&& p : circle ) { p[0] = p[0] / 4 + 2; p[1] = p[1] / 4 - 1; }
  subsets( "moved circle", circle, 2, 4, deep ? 8 : 6 );

  Points sphere = { {3,0,0}, {-3,0,0}, {0,3,0}, {0,0,3}, {1,2,2}, {-1,2,2}, {1,-2,2}, {2,1,2}, {2,2,-1}, {-2,-2,1}, {2,-1,-2}, {-1,-2,-2} };
  subsets( "sphere", sphere, 3, 5, deep ? 8 : 6 );

  Points grid = gridPoints( { { 0, 1, 2, 4 }, { 0, 1, 3 } } );
  subsets( "grid", grid, 2, 4, deep ? 8 : 6 );

  // Nearly all of the points, further circles, and a sphere in four dimensions
  subsets( "moved circle", circle, 2, 10, 12 );
  subsets( "sphere", sphere, 3, 10, 12 );
  subsets( "grid", grid, 2, 11, 12 );
  Points hypersphere = { {2,0,0,0}, {0,2,0,0}, {0,0,-2,0}, {1,1,1,1}, {1,-1,1,1}, {-1,1,1,-1}, {1,1,-1,1}, {0,0,0,2}, {-1,-1,1,1} };
  subsets( "hypersphere", hypersphere, 4, 6, 9 );
  for( unsigned n = 13; n <= ( deep ? 30u : 18u ); n++ )
  {
    if( !H().mine() ) continue;
    Points P;
    for( unsigned i = 0; i < n; i++ ) P.push_back( { double( i % 5 ), double( i / 5 * 2 + i % 2 ) } );
    H().setCase( cat( "rows ", strPoints( P ) ) );
    H().state();
    estimate<double>( P, 2, 1e-5 );
  }

  Points line = gridPoints( { { 0, 1, 3, 4, 6, 10 }, { 2, 5 } } );
  subsets( "lines", line, 2, 4, deep ? 7 : 5 );
}
