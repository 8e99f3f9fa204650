// Vietoris-Rips complexes of all small point clouds against the definition.

#include "big.hh"
#include "points.hh"

#include <aleph/geometry/BruteForce.hh>
#include <aleph/geometry/FLANN.hh>
#include <aleph/geometry/VietorisRipsComplex.hh>
#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/distances/Manhattan.hh>

using namespace vf;
using namespace aleph::geometry;

template <class K> void compare( const K& k, const std::map<Mask, double>& e, double eps, const char* what )
{
  std::map<Mask, double> got;
  for( auto&& s : k )
  {
    Mask m = toMask( s );
    H().check( !got.count( m ), "duplicate", cat( what, ": simplex ", strMask( m ), " occurs twice" ) );
    for( Mask f : facets( m ) )
    {
      H().check( got.count( f ) != 0, "order", cat( what, ": ", strMask( m ), " precedes its face ", strMask( f ) ) );
      H().check( got[f] <= double( s.data() ), "order", cat( what, ": weight of ", strMask( m ), " is smaller than that of its face" ) );
    }
    got[m] = double( s.data() );
  }
  double last = -1e300;
  for( auto&& s : k )
  {
    H().check( double( s.data() ) >= last, "order", cat( what, ": weights are not in order" ) );
    last = double( s.data() );
  }
  for( auto&& p : e )
  {
    if( !got.count( p.first ) ) H().fail( "missing", cat( what, ": simplex ", strMask( p.first ), " is missing" ) );
    else H().check( close( got[p.first], p.second, eps ), "weight", cat( what, ": weight of ", strMask( p.first ), " should be ", p.second, ", got ", got[p.first] ) );
  }
  for( auto&& p : got )
    H().check( e.count( p.first ) != 0, "extra", cat( what, ": simplex ", strMask( p.first ), " must not be present" ) );
}

template <class T, template <class, class> class NN, class Distance, class Ref>
void build( const Points& P, std::size_t d, Ref ref, double r, unsigned dimension, const char* what, double eps )
{
  using Cloud = aleph::containers::PointCloud<T>;
  Cloud c = toCloud<T>( P, d );
  NN<Cloud, Distance> nn( c );

  std::map<Mask, double> e;
  std::map<Mask, double> v;
  std::vector<T> values;
  for( std::size_t i = 0; i < P.size(); i++ ) values.push_back( T( ( i * 3 ) % 5 ) - 2 );
  for( Mask m = 1; m < ( Mask(1) << P.size() ); m++ )
  {
    if( dim( m ) > int( dimension ) ) continue;
    double w = 0, x = -1e9;
    bool ok = true;
    auto V = verts( m );
    for( auto a : V )
    {
      x = std::max( x, double( values[a] ) );
      for( auto b : V )
        if( a != b )
        {
          double dist = ref( P[a], P[b] );
          if( !( dist < r ) ) ok = false;
          w = std::max( w, dist );
        }
    }
    if( !ok ) continue;
    e[m] = w;
    v[m] = x;
  }
  compare( buildVietorisRipsComplex( nn, T( r ), dimension ), e, eps, what );
  compare( buildVietorisRipsComplex( nn, T( r ), dimension, values.begin(), values.end() ), v, eps, what );
  H().step( 2 );
}

static void cloud( const Points& P, std::size_t d, bool full )
{
  H().setCase( "points " + strPoints( P ) );
  H().state();
  H().guarded( "construction", [&]
  {
    using C = aleph::containers::PointCloud<double>; (void) sizeof( C );
    std::vector<double> e, m;
    for( auto&& p : P ) for( auto&& q : P ) { e.push_back( euclidean( p, q ) ); m.push_back( manhattan( p, q ) ); }
    unsigned top = P.empty() ? 1 : unsigned( P.size() );
    for( double r : radii( e ) )
      for( unsigned k = full ? 0 : top - 1; k <= top; k++ )
      {
        build<double, BruteForce, distances::Euclidean<double> >( P, d, euclidean, r, k, "brute force, Euclidean", 1e-12 );
        if( P.empty() ) continue;
        if( full || k == top ) build<float,  BruteForce, distances::Euclidean<float> > ( P, d, euclidean, r, k, "brute force, float", 1e-6 );
        build<double, FLANN,      distances::Euclidean<double> >( P, d, euclidean, r, k, "FLANN, Euclidean", 1e-12 );
      }
    for( double r : radii( m ) )
    {
      build<double, BruteForce, distances::Manhattan<double> >( P, d, manhattan, r, top, "brute force, Manhattan", 1e-12 );
      if( !P.empty() )
        build<double, FLANN, distances::Manhattan<double> >( P, d, manhattan, r, 2, "FLANN, Manhattan", 1e-12 );
    }
    H().trace();
    H().sample();
  } );
}

// Families of larger clouds
template <class T, template <class, class> class NN, class Distance, class Ref>
void large( const Points& P, std::size_t d, Ref ref, double r, unsigned dimension, const char* what, double eps )
{
  using Cloud = aleph::containers::PointCloud<T>;
  Cloud c = toCloud<T>( P, d );
  NN<Cloud, Distance> nn( c );
  std::vector<T> values;
  std::size_t n = P.size();
  for( std::size_t i = 0; i < n; i++ ) values.push_back( T( ( i * 3 ) % 17 ) - 8 );
  std::map<Face, double> e, v;
  std::vector<Face> layer;
  std::vector< std::vector<double> > D( n, std::vector<double>( n ) );
  for( unsigned i = 0; i < n; i++ )
  {
    for( unsigned j = 0; j < n; j++ ) D[i][j] = ref( P[i], P[j] );
    layer.push_back( { i } );
    e[ { i } ] = 0;
    v[ { i } ] = double( values[i] );
  }
  for( unsigned k = 1; k <= dimension; k++ )
  {
    std::vector<Face> next;
    for( auto&& f : layer ) for( unsigned j = f.back() + 1; j < n; j++ )
    {
      double w = e[f];
      bool ok = true;
      for( auto i : f ) { ok = ok && D[i][j] < r; w = std::max( w, D[i][j] ); }
      if( !ok ) continue;
      Face g = f;
      g.push_back( j );
      e[g] = w;
      v[g] = std::max( v[f], double( values[j] ) );
      next.push_back( g );
    }
    layer = next;
  }
  auto judge = [&] ( const decltype( buildVietorisRipsComplex( nn, T( r ), dimension ) )& K, const std::map<Face, double>& w )
  {
    H().step();
    std::set<Face> seen;
    double last = -1e300;
    for( auto&& s : K )
    {
      auto f = toFace( s );
      auto it = w.find( f );
      H().check( it != w.end(), "extra", cat( what, ": simplex ", f, " must not be present" ) );
      if( it != w.end() ) H().check( close( double( s.data() ), it->second, eps ), "weight", cat( what, ": weight of ", f, " should be ", it->second, ", got ", s.data() ) );
      for( auto&& g : facetsOf( f ) ) H().check( seen.count( g ) != 0, "order", cat( what, ": ", f, " precedes a face" ) );
      H().check( double( s.data() ) >= last, "order", cat( what, ": weights are not in order" ) );
      last = double( s.data() );
      seen.insert( f );
    }
    H().check( seen.size() == w.size() && K.size() == w.size(), "missing", cat( what, ": ", K.size(), " simplices instead of ", w.size() ) );
  };
  judge( buildVietorisRipsComplex( nn, T( r ), dimension ), e );
  judge( buildVietorisRipsComplex( nn, T( r ), dimension, values.begin(), values.end() ), v );
}

void explore()
{
  bigClouds( H().thorough ? 48 : 24, [&] ( const std::string& name, const Points& P, std::size_t d )
  {
    if( !H().mine() ) return;
    H().setCase( name );
    if( H().skip() ) return;
    H().state();
    H().guarded( "construction", [&]
    {
      for( double r : { 1.25, 3.75, 7.3 } )
        for( unsigned k : { 1u, 3u } )
        {
          large<double, BruteForce, distances::Euclidean<double> >( P, d, euclidean, r, k, "brute force, Euclidean", 1e-12 );
          large<double, FLANN,      distances::Euclidean<double> >( P, d, euclidean, r, k, "FLANN, Euclidean", 1e-12 );
          large<double, FLANN,      distances::Manhattan<double> >( P, d, manhattan, r, k, "FLANN, Manhattan", 1e-12 );
        }
      H().trace();
    } );
  } );

  auto plane = gridPoints( { { 0, 1, 2 }, { 0, 1, 3 } } );
  auto line  = gridPoints( { { -1, 0, 1, 3, 4.5 } } );
  auto space = gridPoints( { { 0, 1 }, { 0, 2 }, { -1, 2 } } );

  for( std::size_t n = 1; n <= 3; n++ )
    forAllPoints( plane, n, false, [&] ( const Points& P ) { if( H().mine() ) magnitudes( P, [&] ( const Points& Q ) { cloud( Q, 2, true ); } ); } );
  for( std::size_t n = 0; n <= 2; n++ )
    forAllPoints( plane, n, true,  [&] ( const Points& P ) { if( H().mine() ) cloud( P, 2, true ); } );
  forAllPoints( plane, 3, H().thorough, [&] ( const Points& P ) { if( H().mine() ) cloud( P, 2, true ); } );
  forAllPoints( plane, 4, false, [&] ( const Points& P ) { if( H().mine() ) cloud( P, 2, H().thorough ); } );
  for( std::size_t n = 1; n <= 5; n++ )
    forAllPoints( line, n, n <= 3, [&] ( const Points& P ) { if( H().mine() ) cloud( P, 1, n <= 3 ); } );
  forAllPoints( space, 4, false, [&] ( const Points& P ) { if( H().mine() ) cloud( P, 3, false ); } );
  if( H().thorough )
    forAllPoints( plane, 5, false, [&] ( const Points& P ) { if( H().mine() ) cloud( P, 2, false ); } );
}
