// Kernels between all pairs of small diagrams.

#include "pd.hh"

#include <aleph/persistenceDiagrams/kernels/KernelEmbedding.hh>
#include <aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh>

using namespace vf;

static double sq( double x ) { return x * x; }
static double dist( const Pair& p, const Pair& q ) { return sq( p.first - q.first ) + sq( p.second - q.second ); }
static double mirrored( const Pair& p, const Pair& q ) { return sq( p.first - q.second ) + sq( p.second - q.first ); }

static double multiScale( const Pairs& A, const Pairs& B, double scale, double sigma, double factor )
{
  double s = 0;
  for( auto&& p : A ) for( auto&& q : B ) s += std::exp( -dist( p, q ) / ( factor * scale ) ) - std::exp( -mirrored( p, q ) / ( factor * scale ) );
  return s / ( factor * M_PI * sigma );
}

static double metric( double kxx, double kxy, double kyy ) { return std::sqrt( std::max( kxx + kyy - 2 * kxy, 0.0 ) ); }

static double linear( const Pairs& A, const Pairs& B, double sigma, double C, double p )
{
  double s = 0;
  auto w = [&] ( const Pair& x ) { return std::atan( C * std::pow( x.second - x.first, p ) ); };
  for( auto&& x : A ) for( auto&& y : B ) s += w( x ) * w( y ) * std::exp( -dist( x, y ) / ( 2 * sigma * sigma ) );
  return s;
}

// The implementation uses a constant instead of the smoothing parameter in
// the exponent, which is a known finding
static void scaled( double g, double e, double known, const char* key, const std::string& what )
{
  if( close( g, e, 1e-7 ) ) return;
  if( close( g, known, 1e-7 ) ) { H().fail( "multi-scale-sigma", cat( what, " should be ", e, ", got ", g ) ); return; }
  H().fail( key, cat( what, " should be ", e, ", got ", g ) );
}

template <class T> void run( const Pairs& A, const Pairs& B, const char* name )
{
  H().setCase( cat( name, " ", show( A ), " ", show( B ) ) );
  H().state();
  H().guarded( "kernels", [&]
  {
    auto D = toDiagram<T>( A ), E = toDiagram<T>( B );
    auto a = A, b = B;
    std::sort( a.begin(), a.end() );
    std::sort( b.begin(), b.end() );
    for( double sigma : { 0.5, 1.0, M_PI, 4.0 } )
    {
      auto text = cat( " for sigma=", sigma );
      double g = aleph::multiScaleKernel( D, E, sigma );
      scaled( g, multiScale( A, B, sigma, sigma, 8 ), multiScale( A, B, M_PI, sigma, 8 ), "multi-scale", "multi-scale kernel" + text );
      H().check( close( g, aleph::multiScaleKernel( E, D, sigma ) ), "multi-scale-symmetric", "multi-scale kernel is not symmetric" + text );
      scaled( aleph::multiScaleFeatureMap( D, sigma ), multiScale( A, A, sigma, sigma, 4 ), multiScale( A, A, M_PI, sigma, 4 ), "feature-map", "feature map" + text );
      double m = aleph::multiScalePseudoMetric( D, E, sigma );
      auto k = [&] ( double s ) { return metric( multiScale( A, A, s, sigma, 8 ), multiScale( A, B, s, sigma, 8 ), multiScale( B, B, s, sigma, 8 ) ); };
      scaled( m, k( sigma ), k( M_PI ), "multi-scale-metric", "multi-scale pseudo-metric" + text );
      H().check( m >= 0 && close( m, aleph::multiScalePseudoMetric( E, D, sigma ), 1e-7 ), "multi-scale-metric", "multi-scale pseudo-metric is not symmetric and non-negative" + text );
      if( a == b ) H().check( close( m, 0, 1e-7 ), "multi-scale-metric", cat( "multi-scale pseudo-metric of equal diagrams is ", m, text ) );
      H().step( 3 );

      for( double C : { 1.0, 0.25 } )
        for( double p : { 1.0, 2.0 } )
        {
          aleph::detail::DefaultWeightFunction w( C, p );
          aleph::detail::DefaultKernel kernel( sigma );
          auto parameters = cat( text, " C=", C, " p=", p );
          g = aleph::linearKernel( D, E, w, kernel );
          H().check( close( g, linear( A, B, sigma, C, p ) ), "linear", cat( "linear kernel should be ", linear( A, B, sigma, C, p ), ", got ", g, parameters ) );
          H().check( close( g, aleph::linearKernel( E, D, w, kernel ) ), "linear", "linear kernel is not symmetric" + parameters );
          m = aleph::pseudoMetric( D, E, w, kernel );
          double e = metric( linear( A, A, sigma, C, p ), linear( A, B, sigma, C, p ), linear( B, B, sigma, C, p ) );
          H().check( close( m, e, 1e-7 ), "metric", cat( "pseudo-metric should be ", e, ", got ", m, parameters ) );
          H().check( m >= 0 && close( m, aleph::pseudoMetric( E, D, w, kernel ), 1e-7 ), "metric", "pseudo-metric is not symmetric and non-negative" + parameters );
          if( a == b ) H().check( close( m, 0, 1e-7 ), "metric", "pseudo-metric of equal diagrams has to be zero" + parameters );
          for( double tau : { 0.5, 2.0 } )
          {
            double v = std::exp( -e * e / ( 2 * tau * tau ) );
            g = aleph::gaussianKernel( D, E, w, kernel, tau );
            H().check( close( g, v, 1e-7 ), "gaussian", cat( "Gaussian kernel should be ", v, ", got ", g, parameters, " tau=", tau ) );
            g = aleph::gaussianKernel( D, E, sigma, C, p, tau );
            H().check( close( g, v, 1e-7 ), "gaussian", cat( "Gaussian kernel with default weights should be ", v, ", got ", g, parameters, " tau=", tau ) );
          }
          H().step( 4 );
        }
      // Other weights and kernels
      using Point = typename aleph::PersistenceDiagram<T>::Point;
      g = aleph::linearKernel( D, E, [] ( const Point& p ) { return double( p.x() ) + 1; }, [] ( const Point& p, const Point& q ) { return double( p.y() * q.y() ); } );
      double e = 0;
      for( auto&& p : A ) for( auto&& q : B ) e += ( p.first + 1 ) * ( q.first + 1 ) * p.second * q.second;
      H().check( close( g, e ), "linear", cat( "linear kernel with other weights should be ", e, ", got ", g ) );
    }
    H().trace();
    H().sample();
  } );
}

void explore()
{
  // Families of larger diagrams
  auto large = bigDiagrams( H().thorough ? 14 : 8 );
  for( std::size_t i = 0; i < large.size(); i++ )
    for( std::size_t j = 0; j < large.size(); j++ )
      if( i % 9 != j % 9 && i + j > 40 && ( i + j ) % 4 == 0 && H().mine() )
      {
        auto scaled = [] ( Pairs p ) { for( auto&& x : p ) { x.first /= 4; x.second /= 4; } return p; };
        run<double>( scaled( large[i].second ), scaled( large[j].second ), "double" );
      }
  Pairs alphabet = { { 0, 1 }, { 0.25, 2 }, { 1, 1 }, { 1.5, 2 } };
  std::size_t n = H().thorough ? 4 : 3;
  std::vector<Pairs> all;
  for( std::size_t k = 0; k <= n; k++ )
    forAllVectors( k, unsigned( alphabet.size() ), [&] ( const std::vector<unsigned>& x )
    {
      Pairs p;
      for( auto i : x ) p.push_back( alphabet[i] );
      all.push_back( p );
    } );
  for( auto&& a : all ) for( auto&& b : all )
  {
    if( !H().mine() ) continue;
    run<double>( a, b, "double" );
    if( a.size() + b.size() <= 3 ) run<float>( a, b, "float" );
  }
  // Diagrams with integers
  alphabet = { { 0, 1 }, { 0, 3 }, { 2, 2 } };
  for( auto&& a : allDiagrams( alphabet, 2 ) ) for( auto&& b : allDiagrams( alphabet, 2 ) )
  {
    if( !H().mine() ) continue;
    run<unsigned>( a, b, "unsigned" );
  }
}
