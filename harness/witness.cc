// Witness complexes and landmark selection. The random source of the landmark
// selection is replaced by an enumerated one.

#include "bridge.hh"
#include "points.hh"

#include <random>

namespace vf { static unsigned seed = 0; }

namespace std
{
  struct vf_random_device
  {
    using result_type = unsigned;
    vf_random_device() = default;
    template <class T> explicit vf_random_device( const T& ) {}
    unsigned operator()() { return vf::seed; }
    double entropy() const { return 0; }
    static constexpr unsigned min() { return 0; }
    static constexpr unsigned max() { return ~0u; }
  };
}

#define random_device vf_random_device
#include <aleph/geometry/WitnessComplex.hh>
#undef random_device

#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/distances/Manhattan.hh>

using namespace vf;
using namespace aleph::geometry;

template <class Distance, class Ref> void complexes( const Points& P, std::size_t d, const std::vector<std::size_t>& L, Ref ref, const char* what, bool full )
{
  auto cloud = toCloud<double>( P, d );
  std::size_t n = L.size();
  for( unsigned nu = 0; nu <= n; nu++ )
    for( double R : { 0.0, 0.5 * unit(), unit(), 2 * unit() } )
      for( unsigned dimension = full ? 0 : 2; dimension <= 3; dimension++ )
      {
        if( !full && dimension == 3 ) continue;
        std::map<Mask, double> w;
        for( std::size_t i = 0; i < n; i++ )
        {
          w[ Mask(1) << i ] = 0;
          for( std::size_t j = i + 1; j < n; j++ )
          {
            double best = 1e300;
            for( auto&& p : P )
            {
              std::vector<double> dist;
              for( auto l : L ) dist.push_back( ref( p, P[l] ) );
              double m = 0;
              auto sorted = dist;
              std::sort( sorted.begin(), sorted.end() );
              if( nu ) m = sorted[ nu - 1 ];
              double x = std::max( dist[i], dist[j] );
              if( x <= R + m ) best = std::min( best, x );
            }
            if( best < 1e300 ) w[ ( Mask(1) << i ) | ( Mask(1) << j ) ] = best;
          }
        }
        unsigned top = dimension ? dimension : unsigned( d + 1 );
        std::map<Mask, double> e = w;
        for( Mask m = 1; m < ( Mask(1) << n ); m++ )
        {
          if( dim( m ) < 2 || dim( m ) > int( top ) ) continue;
          bool ok = true;
          double x = 0;
          for( auto a : verts( m ) ) for( auto b : verts( m ) ) if( a < b )
          {
            auto it = w.find( ( Mask(1) << a ) | ( Mask(1) << b ) );
            if( it == w.end() ) ok = false; else x = std::max( x, it->second );
          }
          if( ok ) e[m] = x;
        }
        auto K = buildWitnessComplex<Distance>( cloud, L.begin(), L.end(), dimension, nu, R );
        H().step();
        auto got = toWeights( K );
        auto where = cat( what, " nu=", nu, " R=", R, " dimension=", dimension, ": " );
        H().check( got.size() == K.size(), "duplicate", where + "simplices occur more than once" );
        for( auto&& p : e )
        {
          H().check( got.count( p.first ) != 0, "missing", cat( where, "simplex ", strMask( p.first ), " is missing" ) );
          if( got.count( p.first ) )
            H().check( close( got[p.first], p.second ), "weight", cat( where, "weight of ", strMask( p.first ), " should be ", p.second, ", got ", got[p.first] ) );
        }
        for( auto&& p : got ) H().check( e.count( p.first ) != 0, "extra", cat( where, "simplex ", strMask( p.first ), " must not be present" ) );
        double last = -1;
        std::set<Mask> seen;
        for( auto&& s : K )
        {
          H().check( s.data() >= last, "order", where + "complex is not sorted" );
          last = s.data();
          for( Mask f : facets( toMask( s ) ) ) H().check( seen.count( f ) != 0, "order", where + "face follows coface" );
          seen.insert( toMask( s ) );
        }
      }
  // Default parameters
  if( n >= 2 )
  {
    auto A = buildWitnessComplex<Distance>( cloud, L.begin(), L.end() );
    auto B = buildWitnessComplex<Distance>( cloud, L.begin(), L.end(), 0, 2, 0 );
    H().check( A == B, "defaults", "default parameters differ from the documented ones" );
  }
}

static void cloud( const Points& P, std::size_t d, bool full )
{
  std::size_t n = P.size();
  // All landmark subsets, and one permuted variant of each
  for( Mask m = 1; m < ( Mask(1) << n ); m++ )
    for( int rev = 0; rev < 2; rev++ )
    {
      auto v = verts( m );
      if( v.size() > 4 ) continue;
      std::vector<std::size_t> L( v.begin(), v.end() );
      if( rev && L.size() < 2 ) continue;
      if( rev ) std::rotate( L.begin(), L.begin() + 1, L.end() );
      H().setCase( cat( "points ", strPoints( P ), " landmarks ", str( L ) ) );
      H().state();
      H().guarded( "witness", [&]
      {
        complexes< distances::Euclidean<double> >( P, d, L, euclidean, "Euclidean", full );
        if( full ) complexes< distances::Manhattan<double> >( P, d, L, manhattan, "Manhattan", false );
        H().trace();
        H().sample();
      } );
    }
  H().setCase( cat( "points ", strPoints( P ), " without landmarks" ) );
  H().state();
  H().guarded( "witness", [&]
  {
    std::vector<std::size_t> none;
    auto c = toCloud<double>( P, d );
    H().check( buildWitnessComplex< distances::Euclidean<double> >( c, none.begin(), none.end() ).empty(), "empty", "complex without landmarks is not empty" );
    H().step();
    H().trace();
  } );
}

static void maxmin( const Points& P, std::size_t d, unsigned seeds )
{
  std::size_t n = P.size();
  auto c = toCloud<double>( P, d );
  for( std::size_t k = 0; k <= n; k++ )
  {
    std::set<std::size_t> starts;
    for( seed = 0; seed < seeds; seed++ )
    {
      H().setCase( cat( "max-min landmarks of ", strPoints( P ), " k=", k, " seed=", seed ) );
      H().state();
      H().guarded( "landmarks", [&]
      {
        std::vector<std::size_t> L;
        generateMaxMinLandmarks< distances::Euclidean<double> >( c, k, std::back_inserter( L ) );
        H().step();
        if( !L.empty() ) starts.insert( L.front() );
        H().check( L.size() == k, "count", cat( L.size(), " landmarks instead of ", k ) );
        H().check( std::set<std::size_t>( L.begin(), L.end() ).size() == L.size(), "distinct", cat( "landmarks are not distinct: ", str( L ) ) );
        for( auto l : L ) { H().check( l < n, "range", "invalid landmark" ); if( l >= n ) return; }
        for( std::size_t i = 1; i < L.size(); i++ )
        {
          double chosen = 1e300, best = -1;
          for( std::size_t q = 0; q < n; q++ )
          {
            double m = 1e300;
            for( std::size_t j = 0; j < i; j++ ) m = std::min( m, squared( P[q], P[ L[j] ] ) );
            if( q == L[i] ) chosen = m;
            best = std::max( best, m );
          }
          H().check( chosen == best, "max-min", cat( "landmark ", i, " of ", str( L ), " is not farthest from the previous ones" ) );
        }
        H().trace();
        H().sample();
      } );
    }
    if( k == 1 && starts.size() == n ) H().note( "max-min selections with all start points covered" );
  }
  H().setCase( cat( "too many max-min landmarks of ", strPoints( P ) ) );
  H().state();
  bool thrown = false;
  try { std::vector<std::size_t> L; generateMaxMinLandmarks< distances::Euclidean<double> >( c, n + 1, std::back_inserter( L ) ); }
  catch( const std::exception& ) { thrown = true; }
  H().check( thrown, "range", "more landmarks than points are accepted" );
  H().trace();
}

static void random( unsigned n )
{
  for( unsigned k = 0; k <= n; k++ )
  {
    std::set< std::vector<unsigned> > seen;
    for( seed = 0; seed < 200; seed++ )
    {
      H().setCase( cat( "random landmarks n=", n, " k=", k, " seed=", seed ) );
      H().state();
      H().guarded( "landmarks", [&]
      {
        std::vector<unsigned> L;
        generateRandomLandmarks( n, k, std::back_inserter( L ) );
        H().step();
        H().check( L.size() == k, "count", "wrong number of landmarks" );
        H().check( std::set<unsigned>( L.begin(), L.end() ).size() == L.size(), "distinct", "landmarks are not distinct" );
        for( auto l : L ) H().check( l < n, "range", "invalid landmark" );
        seen.insert( L );
        H().trace();
      } );
    }
    H().note( "different random landmark selections", seen.size() );
  }
}

void explore()
{
  bigClouds( 16, [&] ( const std::string&, const Points& P, std::size_t d )
  {
    for( std::size_t step : { 2u, 3u } )
    {
      if( !H().mine() ) continue;
      std::vector<std::size_t> L;
      for( std::size_t i = 0; i < P.size() && L.size() < 6; i++ ) L.push_back( ( i * step + 1 ) % P.size() );
      std::sort( L.begin(), L.end() );
      L.erase( std::unique( L.begin(), L.end() ), L.end() );
      H().setCase( cat( "points ", strPoints( P ), " landmarks ", str( L ) ) );
      if( H().skip() ) continue;
      H().state();
      H().guarded( "witness", [&]
      {
        complexes< distances::Euclidean<double> >( P, d, L, euclidean, "Euclidean", false );
        complexes< distances::Manhattan<double> >( P, d, L, manhattan, "Manhattan", false );
        H().trace();
      } );
    }
    if( P.size() > 4 && P.size() % 3 == 0 && H().mine() ) maxmin( P, d, 8 );
  } );

  auto plane = gridPoints( { { 0, 1, 3 }, { 0, 1 } } );
  auto big   = gridPoints( { { 0, 1, 2 }, { 0, 1, 3 } } );
  auto line  = gridPoints( { { 0, 1, 3, 4 } } );
  for( std::size_t n = 2; n <= 3; n++ )
    forAllPoints( plane, n, false, [&] ( const Points& P ) { if( H().mine() ) magnitudes( P, [&] ( const Points& Q ) { cloud( Q, 2, true ); } ); } );
  forAllPoints( big, 3, false, [&] ( const Points& P ) { if( H().mine() ) magnitudes( P, [&] ( const Points& Q ) { maxmin( Q, 2, 8 ); } ); } );
  for( std::size_t n = 1; n <= 3; n++ )
    forAllPoints( plane, n, false, [&] ( const Points& P ) { if( H().mine() ) cloud( P, 2, true ); } );
  forAllPoints( plane, 4, false, [&] ( const Points& P ) { if( H().mine() ) cloud( P, 2, H().thorough ); } );
  forAllPoints( line, 4, false, [&] ( const Points& P ) { if( H().mine() ) cloud( P, 1, false ); } );
  if( H().thorough ) forAllPoints( plane, 5, false, [&] ( const Points& P ) { if( H().mine() ) cloud( P, 2, false ); } );

  for( std::size_t n = 1; n <= 4; n++ )
    forAllPoints( big, n, false, [&] ( const Points& P ) { if( H().mine() ) maxmin( P, 2, n <= 3 ? 16 : 24 ); } );
  for( unsigned n = 1; n <= 6; n++ ) if( H().mine() ) random( n );
}
