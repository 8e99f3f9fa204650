// Statistics helpers: all short sequences of numbers. The random choices of
// the bootstrap are replaced by enumerated ones.

#include "common.hh"

#include <aleph/math/Quantiles.hh>
#include <aleph/math/KahanSummation.hh>
#include <aleph/math/Statistics.hh>
#include <aleph/math/KernelDensityEstimator.hh>
#include <aleph/math/AlgebraicSphere.hh>

#include <boost/math/distributions/students_t.hpp>

#include <cmath>
#include <list>
#include <random>
#include <set>

namespace vf
{
  static unsigned seed = 0;
  static std::vector<unsigned> script; // enumerated choices
  static std::size_t position = 0;
}

namespace std
{
  struct vf_random_device
  {
    using result_type = unsigned;
    vf_random_device() = default;
    template <class T> explicit vf_random_device( const T& ) {}
    unsigned operator()() { return vf::seed++; }
    double entropy() const { return 0; }
    static constexpr unsigned min() { return 0; }
    static constexpr unsigned max() { return ~0u; }
  };

  // Draws the next enumerated choice, modulo the permitted range
  template <class T = int> struct vf_uniform_int_distribution
  {
    using result_type = T;
    T a, b;
    explicit vf_uniform_int_distribution( T a_ = 0, T b_ = std::numeric_limits<T>::max() ) : a( a_ ), b( b_ ) {}
    template <class G> T operator()( G& )
    {
      unsigned c = vf::position < vf::script.size() ? vf::script[vf::position] : 0;
      vf::position++;
      return T( a + T( c % ( b - a + 1 ) ) );
    }
    T min() const { return a; }
    T max() const { return b; }
    void reset() {}
  };
}

#define random_device vf_random_device
#define uniform_int_distribution vf_uniform_int_distribution
#include <aleph/math/Bootstrap.hh>
#undef random_device
#undef uniform_int_distribution

using namespace vf;
namespace m = aleph::math;
using V = std::vector<double>;
using LD = long double;

static bool same( double g, LD e )
{
  if( std::isnan( (double) e ) ) return std::isnan( g );
  return close( g, double( e ) );
}

// Moments -------------------------------------------------------------

template <class C> static void moments( const C& c, const V& x, const char* name )
{
  H().setCase( cat( name, " ", str( x ) ) );
  H().state();
  H().guarded( "moments", [&]
  {
    const LD nan = std::numeric_limits<double>::quiet_NaN();
    auto n = x.size();
    LD sum = 0, m2 = 0, m3 = 0, m4 = 0;
    for( auto v : x ) sum += v;
    LD mean = n ? sum / n : nan;
    for( auto v : x ) { LD d = v - mean; m2 += d*d; m3 += d*d*d; m4 += d*d*d*d; }
    bool constant = std::set<double>( x.begin(), x.end() ).size() <= 1;
    auto check = [&] ( double g, LD e, const char* key )
    {
      H().check( same( g, e ), key, cat( key, " should be ", double( e ), ", got ", g ) );
      H().step();
    };
    LD variance = n > 1 ? m2 / ( n - 1 ) : nan;
    check( m::sampleMean( c.begin(), c.end() ), mean, "mean" );
    check( m::sampleVariance( c.begin(), c.end() ), variance, "variance" );
    check( m::sampleStandardDeviation( c.begin(), c.end() ), n > 1 ? std::sqrt( variance ) : nan, "standard deviation" );
    check( m::sampleCovariance( c.begin(), c.end(), c.begin(), c.end() ), variance, "covariance with itself" );
    check( m::sampleSkewness( c.begin(), c.end() ), constant ? nan : ( m3 / n ) / std::pow( m2 / n, LD( 1.5 ) ), "skewness" );
    check( m::sampleKurtosis( c.begin(), c.end() ), constant ? nan : ( m4 / n ) / ( ( m2 / n ) * ( m2 / n ) ) - 3, "kurtosis" );
    if( n )
    {
      using T = typename C::value_type;
      std::vector<T> s( c.begin(), c.end() );
      std::sort( s.begin(), s.end() );
      T e = n % 2 ? s[n/2] : T( ( s[n/2] + s[n/2-1] ) / T( 2 ) );
      T g = m::median( c.begin(), c.end() );
      H().check( g == e, "median", cat( "median should be ", e, ", got ", g ) );
      H().check( V( c.begin(), c.end() ) == x, "arguments", "range changed by the median" );
    }
    H().trace();
  } );
}

static void covariance( const V& x, const V& y )
{
  H().setCase( cat( "covariance of ", str( x ), " ", str( y ) ) );
  H().state();
  H().guarded( "covariance", [&]
  {
    bool thrown = false;
    double g = 0;
    std::list<double> l( y.begin(), y.end() );
    try { g = m::sampleCovariance( x.begin(), x.end(), l.begin(), l.end() ); } catch( std::runtime_error& ) { thrown = true; }
    if( x.size() < 2 || y.size() < 2 ) { H().check( !thrown && std::isnan( g ), "covariance-small", "covariance of less than two values is not undefined" ); return; }
    H().check( thrown == ( x.size() != y.size() ), "covariance-size", "sample sizes are not checked" );
    if( thrown ) return;
    LD mx = 0, my = 0, s = 0;
    for( auto v : x ) mx += v / LD( x.size() );
    for( auto v : y ) my += v / LD( y.size() );
    for( std::size_t i = 0; i < x.size(); i++ ) s += ( x[i] - mx ) * ( y[i] - my );
    H().check( same( g, s / LD( x.size() - 1 ) ), "covariance", cat( "covariance should be ", double( s / LD( x.size() - 1 ) ), ", got ", g ) );
    H().step();
    H().trace();
  } );
}

// Compensated sums ----------------------------------------------------

// The error of a compensated sum does not depend on the number of summands
template <class T> static bool precise( T g, __float128 e, __float128 magnitude )
{
  __float128 d = __float128( g ) - e;
  if( d < 0 ) d = -d;
  return d <= __float128( 2.5 ) * __float128( std::numeric_limits<T>::epsilon() / 2 ) * magnitude;
}

template <class T> static void kahan( const std::vector<T>& x, const char* name )
{
  H().setCase( cat( name, " sum of ", str( std::vector<double>( x.begin(), x.end() ) ) ) );
  H().state();
  for( T init : { T( 0 ), T( 1 ) } )
  {
    __float128 e = init, a = init;
    for( auto v : x ) { e += v; a += std::abs( v ); }
    m::KahanSummation<T> s( init ), t = init;
    for( auto v : x ) { s += v; t -= -v; }
    H().check( precise<T>( s, e, a ), "kahan", cat( "sum should be ", double( e ), ", got ", double( T( s ) ) ) );
    H().check( precise<T>( t, e, a ), "kahan-difference", cat( "difference should be ", double( e ), ", got ", double( T( t ) ) ) );
    std::list<T> l( x.begin(), x.end() );
    H().check( precise<T>( m::accumulate_kahan( l.begin(), l.end(), init ), e, a ), "kahan-accumulate", "accumulated sum is imprecise" );
    H().check( precise<T>( m::accumulate_kahan_sorted( l.begin(), l.end(), init ), e, a ), "kahan-sorted", "sorted sum is imprecise" );
    auto r = x;
    std::reverse( r.begin(), r.end() );
    H().check( m::accumulate_kahan_sorted( r.begin(), r.end(), init ) == m::accumulate_kahan_sorted( x.begin(), x.end(), init ), "kahan-order", "sorted sum depends on the order" );
    H().step( x.size() );
  }
  H().trace();
}

static void kahanOperations( const std::vector<unsigned>& x )
{
  static const V add = { 1e16, 1, -1e16, 0.5, 3 };
  static const V factor = { 2, 0, -1, 0.25 };
  std::string text = "compensated operations:";
  m::KahanSummation<double> s;
  __float128 e = 0, a = 0;
  for( auto k : x )
  {
    if( k < 5 ) { text += cat( " +", add[k] ); s += add[k]; e += add[k]; a += std::abs( add[k] ); }
    else if( k == 5 ) { text += " -1"; s -= 1; e -= 1; a += 1; }
    else if( k < 10 ) { double f = factor[k-6]; text += cat( " *", f ); s *= f; e *= f; a *= std::abs( f ); }
    else { text += " /4"; s /= 4; e /= 4; a /= 4; }
  }
  H().setCase( text );
  H().state();
  H().step( x.size() );
  H().check( precise<double>( s, e, a ), "kahan-operations", cat( "value should be ", double( e ), ", got ", double( s ) ) );
  H().trace();
}

// Bootstrap -----------------------------------------------------------

// Records the samples as well as the values reported for them. The data
// themselves are recognised by their address.
struct Statistic
{
  const double* data;
  std::vector<V>* samples;
  V* values;
  unsigned* direct;
  int kind;

  double operator()( V::const_iterator b, V::const_iterator e ) const
  {
    V s( b, e );
    double r = 0;
    for( std::size_t i = 0; i < s.size(); i++ ) r += kind == 0 ? s[i] : s[i] * s[i] * double( i + 1 );
    if( !s.empty() && &*b == data ) { ( *direct )++; return r; }
    samples->push_back( s );
    values->push_back( r );
    return r;
  }
};

static std::set<V> reached[4];

static void bootstrap( const V& data, unsigned numSamples, const std::vector<unsigned>& choices, int kind )
{
  H().setCase( cat( "bootstrap of ", str( data ), " with ", numSamples, " samples and choices ", str( choices ), " statistic ", kind ) );
  H().state();
  H().guarded( "bootstrap", [&]
  {
    auto n = data.size();
    std::vector<V> samples;
    V values, result;
    unsigned direct = 0;
    Statistic f { data.data(), &samples, &values, &direct, kind };
    auto begin = data.cbegin(), end = data.cend();
    auto reset = [&] { script = choices; position = 0; samples.clear(); values.clear(); direct = 0; };
    auto checkSamples = [&]
    {
      H().check( samples.size() == ( n ? numSamples : 0 ), "bootstrap-samples", cat( samples.size(), " samples have been drawn" ) );
      for( auto&& s : samples )
      {
        H().check( s.size() == n, "bootstrap-size", cat( "sample has size ", s.size() ) );
        for( auto v : s ) H().check( std::find( begin, end, v ) != end, "bootstrap-values", "sample contains other values" );
        if( n < 4 && data.size() == std::set<double>( data.begin(), data.end() ).size() ) reached[n].insert( s );
      }
      H().step();
    };

    m::Bootstrap b;
    reset();
    b.makeReplicates( numSamples, begin, end, f, std::back_inserter( result ) );
    checkSamples();
    H().check( result == values, "bootstrap-replicates", "replicates are not the values of the statistic" );
    if( !n ) return;

    double theta = f( begin, end );
    if( numSamples > 1 )
    {
      reset();
      double se = b.standardError( numSamples, begin, end, f );
      checkSamples();
      auto error = [&]
      {
        LD mean = 0, s = 0;
        for( auto v : values ) mean += v / LD( values.size() );
        for( auto v : values ) s += ( v - mean ) * ( v - mean );
        return std::sqrt( s / LD( numSamples - 1 ) );
      };
      H().check( same( se, error() ), "bootstrap-error", cat( "standard error should be ", double( error() ), ", got ", se ) );
      if( n > 1 )
        for( double alpha : { 0.125, 0.25, 0.5 } )
        {
          reset();
          auto i = b.studentConfidenceInterval( numSamples, alpha, begin, end, f );
          checkSamples();
          boost::math::students_t t( double( n - 1 ) );
          double w = double( boost::math::quantile( t, 1 - alpha ) * error() );
          H().check( close( i.first, theta - w ) && close( i.second, theta + w ), "bootstrap-student", cat( "Student interval for ", alpha, " is [", i.first, ",", i.second, "]" ) );
        }
    }
    for( double alpha : { 0.125, 0.25, 0.5, 1.0 } )
    {
      // Order statistics at the given percentiles
      auto percentile = [&] ( double q )
      {
        auto s = values;
        std::sort( s.begin(), s.end() );
        unsigned k = 1;
        while( k < q * numSamples ) k++;
        return s.at( k - 1 );
      };
      reset();
      auto p = b.percentileConfidenceInterval( numSamples, alpha, begin, end, f );
      checkSamples();
      H().check( p.first == percentile( alpha / 2 ) && p.second == percentile( 1 - alpha / 2 ), "bootstrap-percentile", cat( "percentile interval for ", alpha, " is [", p.first, ",", p.second, "]" ) );
      reset();
      auto c = b.basicConfidenceInterval( numSamples, alpha, begin, end, f );
      checkSamples();
      H().check( close( c.first, 2 * theta - percentile( 1 - alpha / 2 ) ) && close( c.second, 2 * theta - percentile( alpha / 2 ) ), "bootstrap-basic", cat( "basic interval for ", alpha, " is [", c.first, ",", c.second, "]" ) );
    }
    H().trace();
  } );
}

static void bootstraps()
{
  // Every process explores all choices for small data in order to decide
  // whether all samples can be reached
  const std::vector<V> data = { {}, { 4 }, { 3, -1 }, { 1, 2, 5 }, { 2, 2, -3 }, { 1, 7, -2, 5 } };
  for( auto&& d : data )
  {
    unsigned n = unsigned( d.size() );
    for( unsigned s = 1; s <= 8; s++ )
    {
      unsigned draws = n * s, limit = H().thorough ? 9 : 6;
      if( n < 2 ) draws = 0;
      if( draws > limit )
      {
        // All choices for one of the samples, the others are fixed
        if( n > 3 && s > 4 ) continue;
        forAllVectors( n, n, [&] ( const std::vector<unsigned>& x )
        {
          if( !H().mine() ) return;
          for( unsigned k = 0; k < s; k++ )
          {
            std::vector<unsigned> c;
            for( unsigned j = 0; j < s; j++ )
              for( unsigned i = 0; i < n; i++ ) c.push_back( j == k ? x[i] : ( i * ( j + 1 ) + j ) % n );
            bootstrap( d, s, c, int( k % 2 ) );
          }
        } );
        continue;
      }
      forAllVectors( draws, std::max( n, 1u ), [&] ( const std::vector<unsigned>& x )
      {
        if( s > 1 && !H().mine() ) return;
        for( int kind = 0; kind < 2; kind++ ) bootstrap( d, s, x, kind );
      } );
    }
  }
  for( unsigned n = 1; n < 4; n++ )
  {
    unsigned all = n == 1 ? 1 : n == 2 ? 4 : 27;
    H().setCase( cat( "bootstrap of ", n, " values" ) );
    H().check( reached[n].size() == all, "bootstrap-reachable", cat( "only ", reached[n].size(), " of ", all, " samples are drawn" ) );
  }
  for( unsigned n = 1; n <= 70; n++ )
    for( unsigned j = 1; j <= 32; j++ )
    {
      if( !H().mine() ) continue;
      double alpha = j / 32.0;
      H().setCase( cat( "percentile index ", n, " ", alpha ) );
      H().state();
      unsigned e = ( n * j + 31 ) / 32 - 1;
      H().check( m::Bootstrap::index( n, alpha ) == e, "bootstrap-index", cat( "index should be ", e, ", got ", m::Bootstrap::index( n, alpha ) ) );
    }
}

// Density estimation --------------------------------------------------

struct Difference
{
  V operator()( const V& a, const V& b ) const
  {
    V r;
    for( std::size_t i = 0; i < a.size(); i++ ) r.push_back( a[i] - b[i] );
    return r;
  }
};

static LD kernel( int kind, double sigma, LD d )
{
  if( kind == 0 ) return std::exp( -d * d / ( 2 * LD( sigma ) * sigma ) ) / ( std::sqrt( 2 * acosl( -1 ) ) * sigma );
  return std::abs( d ) <= 1 ? 0.75L * ( 1 - d * d ) : 0;
}

static void density( const V& x )
{
  if( x.empty() ) return;
  H().setCase( "density " + str( x ) );
  H().state();
  H().guarded( "density", [&]
  {
    for( double at : { -1.0, 0.0, 0.5, 2.0, 3.25 } )
      for( double h : { 0.5, 1.0, 2.0 } )
        for( unsigned dim : { 1u, 2u } )
        {
          m::KernelDensityEstimator k( h, dim );
          for( int kind = 0; kind < 3; kind++ )
          {
            double sigma = kind == 1 ? 1.5 : 1.0;
            LD e = 0;
            for( auto v : x ) e += kernel( kind == 2, sigma, ( v - at ) / h );
            e /= std::pow( h, LD( dim ) ) * x.size();
            double g = kind == 2 ? k( x.begin(), x.end(), at, m::kernels::Epanechnikov() )
                     : kind == 1 ? k( x.begin(), x.end(), at, m::kernels::Gaussian( sigma ) )
                     : k( x.begin(), x.end(), at, m::kernels::Gaussian(), m::norms::Identity() );
            H().check( same( g, e ), "density", cat( "density at ", at, " with bandwidth ", h, " should be ", double( e ), ", got ", g ) );

            // Multivariate
            std::vector<V> p;
            for( std::size_t i = 0; i < x.size(); i++ ) p.push_back( { x[i], x[( i + 1 ) % x.size()] } );
            V q = { at, 1.0 };
            e = 0;
            for( auto&& v : p ) e += kernel( kind == 2, sigma, std::sqrt( ( LD( v[0] ) - q[0] ) * ( v[0] - q[0] ) + ( LD( v[1] ) - q[1] ) * ( v[1] - q[1] ) ) / h );
            e /= std::pow( h, LD( dim ) ) * x.size();
            g = kind == 2 ? k( p.begin(), p.end(), q, m::kernels::Epanechnikov(), m::norms::Euclidean(), Difference() )
                          : k( p.begin(), p.end(), q, m::kernels::Gaussian( sigma ), m::norms::Euclidean(), Difference() );
            H().check( same( g, e ), "density-multivariate", cat( "density at ", str( q ), " with bandwidth ", h, " should be ", double( e ), ", got ", g ) );
            H().step( 2 );
          }
        }
    H().trace();
  } );
}

// Algebraic spheres ---------------------------------------------------

static void sphere( const V& c, double r2, double s )
{
  H().setCase( cat( "sphere around ", str( c ), " with squared radius ", r2, " and factor ", s ) );
  H().state();
  H().guarded( "sphere", [&]
  {
    V u( 1 );
    double n = 0;
    for( auto x : c ) { u.push_back( -2 * x * s ); n += x * x; }
    u[0] = s * ( n - r2 );
    u.push_back( s );
    for( bool radiusFirst : { false, true } )
    {
      m::AlgebraicSphere<double> S( u.begin(), u.end() );
      if( radiusFirst ) S.radius();
      auto centre = S.centre();
      bool ok = centre.size() == c.size();
      for( std::size_t i = 0; ok && i < c.size(); i++ ) ok = centre[i] == c[i];
      H().check( ok, "sphere-centre", cat( "centre is ", str( centre ) ) );
      for( int i = 0; i < 2; i++ )
      {
        // Imaginary spheres do not have any points
        H().check( r2 >= 0 ? close( S.radius(), std::sqrt( r2 ) ) : std::isnan( S.radius() ), "sphere-radius", cat( "radius is ", S.radius() ) );
        H().check( close( S.gaussianCurvature(), r2 > 0 ? 1 / r2 : 0 ), "sphere-gaussian", cat( "Gaussian curvature is ", S.gaussianCurvature() ) );
        H().check( close( S.meanCurvature(), r2 > 0 ? 1 / std::sqrt( r2 ) : 0 ), "sphere-mean", cat( "mean curvature is ", S.meanCurvature() ) );
      }
      H().step();
    }
    H().trace();
  } );
}

static void planes()
{
  // Planes have zero curvature
  forAllVectors( 3, 5, [&] ( const std::vector<unsigned>& x )
  {
    if( !H().mine() || ( x[1] == 2 && x[2] == 2 ) ) return;
    V u = { double( x[0] ) - 2, double( x[1] ) - 2, double( x[2] ) - 2, 0 };
    H().setCase( "plane " + str( u ) );
    H().state();
    m::AlgebraicSphere<double> S( u.begin(), u.end() );
    H().check( S.gaussianCurvature() == 0 && S.meanCurvature() == 0, "sphere-plane", "curvature of a plane is not zero" );
    H().trace();
  } );
  for( std::size_t n = 0; n < 5; n++ )
  {
    V u( n, 1 );
    bool thrown = false;
    try { m::AlgebraicSphere<double> S( u.begin(), u.end() ); } catch( std::runtime_error& ) { thrown = true; }
    H().setCase( cat( "sphere with ", n, " coefficients" ) );
    H().check( thrown == ( n < 3 ), "sphere-coefficients", "number of coefficients is not checked" );
  }
}

// Families of longer sequences
static void large()
{
  for( unsigned n = 6; n <= ( H().thorough ? 150u : 60u ); n++ )
    for( unsigned kind = 0; kind < 5; kind++ )
    {
      if( !H().mine() ) continue;
      V x, y;
      std::list<int> integers;
      for( unsigned i = 0; i < n; i++ )
      {
        x.push_back( kind == 0 ? i : kind == 1 ? double( n - i ) / 2 : kind == 2 ? double( i * 37 % 101 ) - 50 : kind == 3 ? double( i % 3 ) : i + 1 == n ? 1000.0 : 0.0 );
        y.push_back( double( ( i * 53 + kind ) % 19 ) / 4 );
        integers.push_back( int( kind == 1 ? n - i : x[i] ) );
      }
      moments( x, x, "doubles" );
      moments( integers, V( integers.begin(), integers.end() ), "integers" );
      covariance( x, y );
      covariance( y, x );
      if( n <= 20 ) density( x );
      std::vector<float> f( x.begin(), x.end() );
      kahan<double>( x, "double" );
      kahan<float>( f, "float" );
      // Small numbers next to a large one and its negation
      for( unsigned at = 0; at < n; at += 1 + n / 6 )
      {
        auto z = y;
        z[at] = 1e16;
        z[ ( at + n / 2 ) % n ] = -1e16;
        kahan<double>( z, "double" );
      }
      std::vector<unsigned> choices;
      for( unsigned i = 0; i < 8 * n; i++ ) choices.push_back( ( i * i + kind * i + i / n ) % n );
      for( unsigned s : { 1u, 2u, 7u, 8u } ) bootstrap( x, s, choices, int( kind % 2 ) );
    }
}

void explore()
{
  large();
  const V values = { -2, 0, 0.5, 1, 3 };
  unsigned length = H().thorough ? 7 : 5;
  for( std::size_t n = 0; n <= length; n++ )
    forAllVectors( n, 5, [&] ( const std::vector<unsigned>& i )
    {
      if( !H().mine() ) return;
      V x;
      std::list<int> y;
      V z;
      for( auto k : i ) { x.push_back( values[k] ); y.push_back( int( k ) - 2 ); z.push_back( double( k ) - 2 ); }
      moments( x, x, "doubles" );
      moments( y, z, "integers" );
      if( n <= 3 ) density( x );
    } );

  for( std::size_t n = 0; n <= 4; n++ )
    for( std::size_t k = 0; k <= 4; k++ )
      forAllVectors( n + k, H().thorough ? 4 : 3, [&] ( const std::vector<unsigned>& i )
      {
        if( !H().mine() ) return;
        V x, y;
        for( std::size_t j = 0; j < n + k; j++ ) ( j < n ? x : y ).push_back( values[i[j]] );
        covariance( x, y );
      } );

  const V summands = { 1e16, 1, -1, -1e16, 0.5 };
  const std::vector<float> floats = { 1e8f, 1, -1, -1e8f, 0.5f };
  for( std::size_t n = 0; n <= ( H().thorough ? 8u : 6u ); n++ )
    forAllVectors( n, 5, [&] ( const std::vector<unsigned>& i )
    {
      if( !H().mine() ) return;
      V x;
      std::vector<float> y;
      for( auto k : i ) { x.push_back( summands[k] ); y.push_back( floats[k] ); }
      kahan<double>( x, "double" );
      kahan<float>( y, "float" );
    } );
  for( std::size_t n = 0; n <= ( H().thorough ? 6u : 5u ); n++ )
    forAllVectors( n, 11, [&] ( const std::vector<unsigned>& i ) { if( H().mine() ) kahanOperations( i ); } );

  bootstraps();

  for( unsigned d = 1; d <= 3; d++ )
    forAllVectors( d, 5, [&] ( const std::vector<unsigned>& i )
    {
      if( !H().mine() ) return;
      V c;
      for( auto k : i ) c.push_back( ( double( k ) - 2 ) / 2 );
      for( double r2 : { 0.25, 1.0, 4.0, 2.0, 0.0, -1.0 } )
        for( double s : { 1.0, -1.0, 0.5, 4.0 } ) sphere( c, r2, s );
    } );
  planes();
}
