// Descriptors of point clouds: all short sequences of points on small grids,
// compared with the defining formulas point by point.

#include "points.hh"

#include <aleph/containers/DataDescriptors.hh>
#include <aleph/containers/DimensionalityEstimators.hh>
#include <aleph/containers/FractalDimension.hh>
#include <aleph/containers/MeanShift.hh>

#include <aleph/geometry/BruteForce.hh>
#include <aleph/geometry/FLANN.hh>

#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/distances/Manhattan.hh>

#include <aleph/math/AlgebraicSphere.hh>
#include <aleph/math/PrincipalComponentAnalysis.hh>

#include <map>

using namespace vf;

namespace ac = aleph::containers;
namespace ag = aleph::geometry;

using Values = std::vector<double>;
using Metric = double (*)( const Pt&, const Pt& );

static void same( const Values& a, const Values& b, const char* key, double eps = 1e-9 )
{
  H().step();
  bool ok = a.size() == b.size();
  for( std::size_t i = 0; ok && i < a.size(); i++ ) ok = close( a[i], b[i], eps );
  H().check( ok, key, cat( "got ", a, " expected ", b ) );
}

static double mean( const Values& v, std::size_t k )
{
  double s = 0;
  for( std::size_t i = 0; i < k; i++ ) s += v[i];
  return s / double( k );
}

// Principal components ------------------------------------------------

using Square = std::vector<Values>;

static Square covariance( const Points& P, std::size_t d )
{
  Square C( d, Values( d ) );
  Values m( d );
  for( auto&& p : P ) for( std::size_t a = 0; a < d; a++ ) m[a] += p[a] / double( P.size() );
  for( auto&& p : P )
    for( std::size_t a = 0; a < d; a++ )
      for( std::size_t b = 0; b < d; b++ )
        C[a][b] += ( p[a] - m[a] ) * ( p[b] - m[b] );
  if( P.size() > 1 ) for( auto&& r : C ) for( auto&& x : r ) x /= double( P.size() - 1 );
  return C;
}

// Eigenvalues by cyclic Jacobi rotations, in descending order.
static Values eigenvalues( Square A )
{
  std::size_t d = A.size();
  for( unsigned sweep = 0; sweep < 60; sweep++ )
    for( std::size_t p = 0; p < d; p++ )
      for( std::size_t q = p + 1; q < d; q++ )
      {
        if( std::fabs( A[p][q] ) < 1e-15 ) continue;
        double t = 0.5 * std::atan2( 2 * A[p][q], A[q][q] - A[p][p] ), c = std::cos( t ), s = std::sin( t );
        for( std::size_t k = 0; k < d; k++ ) { double x = A[k][p], y = A[k][q]; A[k][p] = c * x - s * y; A[k][q] = s * x + c * y; }
        for( std::size_t k = 0; k < d; k++ ) { double x = A[p][k], y = A[q][k]; A[p][k] = c * x - s * y; A[q][k] = s * x + c * y; }
      }
  Values e;
  for( std::size_t i = 0; i < d; i++ ) e.push_back( std::max( 0.0, A[i][i] ) );
  std::sort( e.rbegin(), e.rend() );
  return e;
}

template <class T> static void principal( const Points& P, std::size_t d, double eps )
{
  std::vector< std::vector<T> > data;
  for( auto&& p : P ) data.push_back( std::vector<T>( p.begin(), p.end() ) );

  aleph::math::PrincipalComponentAnalysis pca;
  auto r = pca( data );

  H().step();
  auto k  = std::min( P.size(), d );
  bool ok = r.singularValues.size() == k && r.components.size() == k;
  for( std::size_t i = 0; ok && i < k; i++ ) ok = r.components[i].size() == d && r.singularValues[i] >= 0 && ( i == 0 || r.singularValues[i] <= r.singularValues[i-1] );
  H().check( ok, "pca-shape", "components or singular values have the wrong shape or order" );
  if( !ok ) return;

  for( std::size_t i = 0; i < k; i++ )
    for( std::size_t j = 0; j < k; j++ )
    {
      double s = 0;
      for( std::size_t a = 0; a < d; a++ ) s += r.components[i][a] * r.components[j][a];
      H().check( close( s, i == j ? 1 : 0, eps ), "pca-orthonormal", cat( "product of components ", i, " and ", j, " is ", s ) );
    }

  auto C = covariance( P, d );
  for( std::size_t a = 0; a < d; a++ )
    for( std::size_t b = 0; b < d; b++ )
    {
      double s = 0;
      for( std::size_t i = 0; i < k; i++ ) s += r.singularValues[i] * r.singularValues[i] * r.components[i][a] * r.components[i][b];
      H().check( close( s, C[a][b], eps ), "pca-covariance", cat( "covariance ", a, ",", b, " is ", C[a][b], ", components give ", s ) );
    }
}

// Descriptors ---------------------------------------------------------

template <class T, class D, class Wrapper> static void descriptors( const Points& P, std::size_t d, Metric metric, double eps )
{
  using Cloud = ac::PointCloud<T>;
  auto n = P.size();
  Cloud pc = toCloud<T>( P, d );

  // Sorted distances to all points, including the point itself, and the
  // indices in the same order.
  std::vector<Values> sorted( n );
  std::vector< std::vector<std::size_t> > order( n );
  for( std::size_t i = 0; i < n; i++ )
  {
    for( std::size_t j = 0; j < n; j++ ) { sorted[i].push_back( metric( P[i], P[j] ) ); order[i].push_back( j ); }
    auto raw = sorted[i];
    std::stable_sort( order[i].begin(), order[i].end(), [&] ( std::size_t a, std::size_t b ) { return raw[a] < raw[b]; } );
    std::sort( sorted[i].begin(), sorted[i].end() );
  }

  for( unsigned e = 0; e <= 3; e++ )
  {
    Values v;
    for( std::size_t i = 0; i < n; i++ )
    {
      double s = 0;
      for( double x : sorted[i] ) s = e ? s + std::pow( x, e ) : std::max( s, x );
      v.push_back( e ? std::pow( s / double( n ), 1.0 / e ) : s );
    }
    H().guarded( "eccentricity", [&] { same( ac::eccentricities<D>( pc, e ), v, "eccentricity", eps ); if( e == 1 ) same( ac::eccentricities<D>( pc ), v, "eccentricity-default", eps ); } );
  }

  for( unsigned k = 0; k <= n + 1; k++ )
  {
    Values v;
    for( std::size_t i = 0; i < n; i++ ) v.push_back( k ? -mean( sorted[i], std::min<std::size_t>( k, n ) ) * double( std::min<std::size_t>( k, n ) ) / double( n ) : 0 );
    H().guarded( "distance-to-measure", [&] { same( ac::estimateDensityDistanceToMeasure<D, Cloud>( pc, k ), v, "distance-to-measure", eps ); } );
    if( k <= n && n > 0 ) H().guarded( "distance-to-measure-wrapper", [&] { same( ac::estimateDensityDistanceToMeasure<D, Cloud, Wrapper>( pc, k ), v, "distance-to-measure-wrapper", eps ); } );
  }

  {
    Values v;
    for( std::size_t k = 0; k < n; k++ )
    {
      unsigned c = 0;
      for( std::size_t i = 0; i < n; i++ )
        for( std::size_t j = i + 1; j < n; j++ )
          if( i != k && j != k && metric( P[i], P[k] ) <= metric( P[i], P[j] ) && metric( P[j], P[k] ) <= metric( P[i], P[j] ) ) c++;
      v.push_back( c );
    }
    H().guarded( "lens-depth", [&] { auto r = ac::estimateLensDataDepth<D>( pc ); same( Values( r.begin(), r.end() ), v, "lens-depth" ); } );
  }

  // Correlation integral and its slope
  {
    std::map<double, unsigned> m;
    for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = i + 1; j < n; j++ ) m[ metric( P[i], P[j] ) ]++;
    Values x, y;
    double seen = 0, pairs = double( n ) * double( n - 1 ) / 2;
    for( auto&& p : m ) { seen += p.second; if( p.first > 0 ) { x.push_back( p.first ); y.push_back( seen / pairs ); } }
    if( n ) H().guarded( "correlation-integral", [&]
    {
      auto r = ac::correlationDimensionIntegral( pc, D() );
      same( r.x, x, "correlation-integral-x", eps );
      same( r.y, y, "correlation-integral-y" );
      if( x.size() < 2 ) return;
      double mx = 0, my = 0, c = 0, s = 0;
      for( std::size_t i = 0; i < x.size(); i++ ) { mx += std::log( x[i] ) / double( x.size() ); my += std::log( y[i] ) / double( x.size() ); }
      for( std::size_t i = 0; i < x.size(); i++ ) { c += ( std::log( x[i] ) - mx ) * ( std::log( y[i] ) - my ); s += ( std::log( x[i] ) - mx ) * ( std::log( x[i] ) - mx ); }
      H().step();
      auto nu = ac::correlationDimension( r );
      H().check( close( nu, c / s, eps ), "correlation-dimension", cat( "slope is ", nu, ", expected ", c / s ) );
    } );
  }

  if( n == 0 ) return;

  // Dimensionality
  for( unsigned k = 1; k + 1 <= n; k++ )
    H().guarded( "dimensionality", [&]
    {
      auto r = ac::estimateLocalDimensionalityNearestNeighbours<D, Cloud, Wrapper>( pc, k );
      H().step();
      H().check( r.size() == n, "dimensionality-size", "number of estimates" );
      for( std::size_t i = 0; i < n && i < r.size(); i++ )
      {
        double a = mean( sorted[i], k ), b = mean( sorted[i], k + 1 );
        if( b - a > 1e-6 ) H().check( close( r[i], a / ( ( b - a ) * k ), eps ), "dimensionality", cat( "k=", k, " point ", i, ": ", r[i], ", expected ", a / ( ( b - a ) * k ) ) );
      }
    } );

  for( unsigned lo = 1; lo <= n; lo++ )
    for( unsigned hi = 1; hi <= n; hi++ )
    {
      unsigned a = std::min( lo, hi ), b = std::max( lo, hi );
      H().guarded( "dimensionality-range", [&]
      {
        auto r = ac::estimateLocalDimensionalityNearestNeighbours<D, Cloud, Wrapper>( pc, lo, hi );
        H().step();
        H().check( r.size() == n, "dimensionality-range-size", "number of estimates" );
        for( std::size_t i = 0; i < n && i < r.size(); i++ )
        {
          double s = 0, t = 0;
          for( unsigned k = a; k < b; k++ )
          {
            double x = mean( sorted[i], k ), y = mean( sorted[i], k + 1 );
            s += ( y - x ) * x / k;
            t += ( y - x ) * ( y - x );
          }
          if( t > 1e-6 ) H().check( close( r[i], s / t, eps ), "dimensionality-range", cat( "k=", lo, "..", hi, " point ", i, ": ", r[i], ", expected ", s / t ) );
        }
      } );
      H().guarded( "dimensionality-mle", [&]
      {
        Values v;
        for( std::size_t i = 0; i < n; i++ )
        {
          double sum = 0;
          for( unsigned k = a; k <= b; k++ )
          {
            double s = 0;
            for( unsigned j = 1; j < k; j++ ) if( sorted[i][j-1] > 0 ) s += std::log( sorted[i][k-1] / sorted[i][j-1] );
            if( k > 2 && s > 0 ) sum += double( k - 2 ) / s;
          }
          v.push_back( sum / double( b - a + 1 ) );
        }
        same( ac::estimateLocalDimensionalityNearestNeighboursMLE<D, Cloud, Wrapper>( pc, lo, hi ), v, "dimensionality-mle", eps );
      } );
    }

  for( unsigned k = 0; k <= 1; k++ )
  {
    bool a = false, b = false;
    try { ac::estimateLocalDimensionalityNearestNeighbours<D, Cloud, Wrapper>( pc, 0, k ); } catch( std::runtime_error& ) { a = true; }
    try { ac::estimateLocalDimensionalityNearestNeighboursMLE<D, Cloud, Wrapper>( pc, k, 0 ); } catch( std::runtime_error& ) { b = true; }
    H().step();
    H().check( a && b, "dimensionality-zero", "zero neighbours are not rejected" );
  }

  // Everything below depends on which points are the neighbours, so only
  // neighbourhoods without ties at their end decide it.
  for( unsigned k = 1; k + 1 <= n; k++ )
  {
    bool unique = true;
    for( std::size_t i = 0; i < n; i++ ) if( k + 1 < n && sorted[i][k+1] - sorted[i][k] < 1e-9 ) unique = false;
    if( !unique ) continue;

    for( unsigned f = 0; f < 2; f++ )
      for( unsigned steps = 0; steps <= 2; steps++ )
      {
        Values x;
        for( std::size_t i = 0; i < n; i++ ) x.push_back( f ? double( i * i ) : ( i == n / 2 ? 8.0 : -1.0 ) );
        Values y = x;
        for( unsigned s = 0; s < steps; s++ )
        {
          Values z;
          for( std::size_t i = 0; i < n; i++ )
          {
            double v = 0, w = 0;
            for( unsigned j = 0; j <= k; j++ )
            {
              double t = sorted[i][j] > 0 ? 1 / ( sorted[i][j] * sorted[i][j] ) : 1;
              v += t * y[ order[i][j] ];
              w += t;
            }
            z.push_back( v / w );
          }
          y = z;
        }
        H().guarded( "mean-shift", [&]
        {
          Values r;
          ac::meanShiftSmoothing<Wrapper>( pc, x.begin(), x.end(), std::back_inserter( r ), k, steps );
          same( r, y, "mean-shift", eps );
          if( steps != 1 ) return;
          Values q( n );
          ac::meanShiftSmoothing<Wrapper>( pc, x.begin(), x.end(), q.begin(), k );
          same( q, y, "mean-shift-default", eps );
        } );
      }

    H().guarded( "dimensionality-pca", [&]
    {
      auto r = ac::estimateLocalDimensionalityPCA<D, Cloud, Wrapper>( pc, k );
      H().step();
      H().check( r.size() == n, "dimensionality-pca-size", cat( r.size(), " estimates for ", n, " points" ) );
      for( std::size_t i = 0; i < n && i < r.size(); i++ )
      {
        Points Q;
        for( unsigned j = 0; j <= k; j++ ) Q.push_back( P[ order[i][j] ] );
        auto e = eigenvalues( covariance( Q, d ) );
        for( auto&& x : e ) x = std::sqrt( x );
        e.resize( std::min<std::size_t>( d, k + 1 ) );
        unsigned best = 1;
        double gap = -1, second = -1;
        for( std::size_t j = 0; j + 1 < e.size(); j++ )
          if( e[j] - e[j+1] > gap ) { second = gap; gap = e[j] - e[j+1]; best = unsigned( j + 1 ); }
          else second = std::max( second, e[j] - e[j+1] );
        if( e.size() < 2 || gap - second > 1e-3 ) H().check( r[i] == best, "dimensionality-pca", cat( "k=", k, " point ", i, ": ", r[i], ", expected ", best ) );
      }
    } );
  }
}

static void density( const Points& P, std::size_t d )
{
  auto pc = toCloud<double>( P, d );
  for( double h : { 0.5, 1.0, 2.0, 3.0 } )
  {
    Values v;
    for( auto&& p : P )
    {
      double s = 0;
      for( auto&& q : P ) if( squared( p, q ) <= h * h ) s += std::exp( -squared( p, q ) / ( 2 * h ) );
      v.push_back( s / double( P.size() ) );
    }
    H().guarded( "density", [&] { same( ac::estimateDensityTruncatedGaussian( pc, h ), v, "density" ); } );
  }
}

// Spheres -------------------------------------------------------------

// The algebraic sphere u0 + u.x + u_{d+1} |x|^2 = 0 that is a multiple of
// the equation of the sphere with the given centre and radius.
static void spheres()
{
  Values coords = { -2, 0, 1, 3 };
  for( std::size_t d = 1; d <= 3; d++ )
    for( double radius : { 0.5, 1.0, 2.0, 5.0 } )
      for( double factor : { 1.0, 2.0, 0.25, -1.0, -4.0 } )
        forAllVectors( d, unsigned( coords.size() ), [&] ( const std::vector<unsigned>& v )
        {
          if( !H().mine() ) return;
          Pt c;
          for( auto i : v ) c.push_back( coords[i] );
          H().setCase( cat( "sphere centre ", c, " radius ", radius, " factor ", factor ) );
          if( H().skip() ) return;
          H().sample();
          H().state();
          double q = 0;
          for( double x : c ) q += x * x;
          Values u = { factor * ( q - radius * radius ) };
          for( double x : c ) u.push_back( -2 * x * factor );
          u.push_back( factor );
          // Every member may be asked first, because results are cached.
          for( unsigned first = 0; first < 4; first++ )
          {
            aleph::math::AlgebraicSphere<double> S( u.begin(), u.end() );
            for( unsigned i = 0; i < 4; i++ )
            {
              H().step();
              unsigned which = ( first + i ) % 4;
              if( which == 0 ) same( S.centre(), c, "sphere-centre" );
              if( which == 1 ) H().check( close( S.radius(), radius ), "sphere-radius", cat( "radius ", S.radius() ) );
              if( which == 2 ) H().check( close( S.meanCurvature(), 1 / radius ), "sphere-mean-curvature", cat( "mean curvature ", S.meanCurvature() ) );
              if( which == 3 ) H().check( close( S.gaussianCurvature(), 1 / ( radius * radius ) ), "sphere-gaussian-curvature", cat( "Gaussian curvature ", S.gaussianCurvature() ) );
            }
          }
          // Planes are spheres without curvature
          u.back() = 0;
          aleph::math::AlgebraicSphere<double> plane( u.begin(), u.end() );
          H().check( plane.meanCurvature() == 0 && plane.gaussianCurvature() == 0, "plane-curvature", cat( "curvature of a plane is ", plane.meanCurvature() ) );
        } );
}

template <class F> static void each( const char* what, const Points& grid, std::size_t n, F f )
{
  forAllPoints( grid, n, true, [&] ( const Points& P )
  {
    if( !H().mine() ) return;
    H().setCase( cat( what, " ", strPoints( P ) ) );
    if( H().skip() ) return;
    H().sample();
    H().state();
    f( P );
  } );
}

void explore()
{
  using C  = ac::PointCloud<double>;
  using F  = ac::PointCloud<float>;
  using E  = ag::distances::Euclidean<double>;
  using Ef = ag::distances::Euclidean<float>;
  using M  = ag::distances::Manhattan<double>;

  bool deep = H().thorough;

  Points line  = { {0}, {1}, {3}, {7}, {-4} };
  Points plane = { {0,0}, {1,0}, {0,2}, {3,1}, {5,5}, {-2,4} };
  Points space = { {0,0,0}, {1,0,0}, {0,2,0}, {0,0,4}, {8,1,2} };

  auto run = [&] ( const Points& P, std::size_t d )
  {
    descriptors<double, E, ag::FLANN<C, E> >( P, d, euclidean, 1e-9 );
    descriptors<double, M, ag::BruteForce<C, M> >( P, d, manhattan, 1e-9 );
    descriptors<float, Ef, ag::BruteForce<F, Ef> >( P, d, euclidean, 2e-4 );
    density( P, d );
    if( P.size() ) { principal<double>( P, d, 1e-9 ); principal<float>( P, d, 1e-4 ); }
  };

  for( std::size_t n = 0; n <= ( deep ? 5 : 4 ); n++ ) each( "line", line, n, [&] ( const Points& P ) { run( P, 1 ); } );
  for( std::size_t n = 1; n <= ( deep ? 5 : 4 ); n++ ) each( "plane", plane, n, [&] ( const Points& P ) { run( P, 2 ); } );
  for( std::size_t n = 1; n <= ( deep ? 5 : 4 ); n++ ) each( "space", space, n, [&] ( const Points& P ) { run( P, 3 ); } );

  bigClouds( deep ? 16 : 11, [&] ( const std::string& name, const Points& P, std::size_t d )
  {
    if( P.size() < 5 || !H().mine() ) return;
    H().setCase( name );
    if( H().skip() ) return;
    H().state();
    run( P, d );
  } );

  spheres();

  if( H().mine() )
  {
    H().setCase( "inconsistent sequence" );
    if( !H().skip() )
    {
      H().state();
      ac::CorrelationDimensionSequence s;
      s.x = { 1, 2 };
      s.y = { 1 };
      bool thrown = false;
      try { ac::correlationDimension( s ); } catch( std::runtime_error& ) { thrown = true; }
      H().check( thrown, "correlation-inconsistent", "inconsistent sequence is not rejected" );
    }
  }
}
