// Nearest-neighbour queries and distance functors against their definitions.

#include "points.hh"

#include <aleph/geometry/BruteForce.hh>
#include <aleph/geometry/FLANN.hh>
#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/distances/Hamming.hh>
#include <aleph/geometry/distances/Infinity.hh>
#include <aleph/geometry/distances/Manhattan.hh>
#include <aleph/geometry/distances/Wrapper.hh>
#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>

using namespace vf;
using namespace aleph::geometry;

template <class T, template <class, class> class NN, class Distance, class Ref>
void queries( const Points& P, std::size_t d, Ref ref, const char* what, double eps )
{
  using Cloud = aleph::containers::PointCloud<T>;
  Cloud c = toCloud<T>( P, d );
  NN<Cloud, Distance> nn( c );
  std::size_t n = P.size();
  if( !( nn.size() == n ) ) H().fail( "size", cat( what, ": wrong size" ) );

  std::vector<double> all;
  for( auto&& p : P ) for( auto&& q : P ) all.push_back( ref( p, q ) );

  // The output parameters keep the results of the previous query
  std::vector< std::vector<std::size_t> > indices;
  std::vector< std::vector<T> > distances;

  auto scales = radii( all );
  for( std::size_t s = 0; s < scales.size(); s += 1 + scales.size() / ( n > 100 ? 3 : 40 ) )
  {
    double r = scales[s];
    nn.radiusSearch( T( r ), indices, distances );
    H().step();
    if( !( indices.size() == n && distances.size() == n ) ) H().fail( "radius", cat( what, ": radius ", r, ": wrong number of results" ) );
    for( std::size_t i = 0; i < n && i < indices.size() && i < distances.size(); i++ )
    {
      std::set<std::size_t> e, got( indices[i].begin(), indices[i].end() );
      for( std::size_t j = 0; j < n; j++ ) if( ref( P[i], P[j] ) < r ) e.insert( j );
      if( !( got == e && indices[i].size() == e.size() ) ) H().fail( "radius", cat( what, ": radius ", r, ": neighbours of point ", i, " should be ", str( e ), ", got ", str( indices[i] ) ) );
      if( !( distances[i].size() == indices[i].size() ) ) H().fail( "radius-distance", cat( what, ": radius ", r, ": ", distances[i].size(), " distances for ", indices[i].size(), " neighbours of point ", i ) );
      for( std::size_t j = 0; j < distances[i].size() && j < indices[i].size(); j++ )
        if( !( indices[i][j] < n && close( double( distances[i][j] ), ref( P[i], P[ indices[i][j] ] ), eps ) ) ) H().fail( "radius-distance", cat( what, ": radius ", r, ": wrong distance of point ", i ) );
    }
  }
  for( unsigned k = 0; k <= n + 1; k += n > 100 ? 90 : n > 16 && k > 2 && k + 4 < n ? 3 : 1 )
  {
    nn.neighbourSearch( k, indices, distances );
    H().step();
    std::size_t m = std::min( std::size_t( k ), n );
    if( !( indices.size() == n && distances.size() == n ) ) H().fail( "neighbours", cat( what, ": k=", k, ": wrong number of results" ) );
    for( std::size_t i = 0; i < n && i < indices.size() && i < distances.size(); i++ )
    {
      std::vector<double> e;
      for( std::size_t j = 0; j < n; j++ ) e.push_back( ref( P[i], P[j] ) );
      std::sort( e.begin(), e.end() );
      std::set<std::size_t> distinct( indices[i].begin(), indices[i].end() );
      bool ok = indices[i].size() == m && distances[i].size() == m && distinct.size() == m;
      if( !( ok ) ) H().fail( "neighbours", cat( what, ": k=", k, ": wrong number of neighbours of point ", i, ": ", str( indices[i] ), " ", distances[i].size() ) );
      for( std::size_t j = 0; ok && j < m; j++ )
      {
        if( !( indices[i][j] < n ) ) H().fail( "neighbours", "invalid index" );
        if( indices[i][j] >= n ) continue;
        if( !( close( double( distances[i][j] ), e[j], eps ) ) ) H().fail( "neighbours", cat( what, ": k=", k, ": distance of neighbour ", j, " of point ", i, " should be ", e[j], ", got ", distances[i][j] ) );
        if( !( close( double( distances[i][j] ), ref( P[i], P[ indices[i][j] ] ), eps ) ) ) H().fail( "neighbours", cat( what, ": k=", k, ": distance and index of neighbour ", j, " of point ", i, " do not match" ) );
      }
    }
  }
}

static void cloud( const Points& P, std::size_t d )
{
  H().setCase( "points " + strPoints( P ) );
  H().state();
  H().guarded( "query", [&]
  {
    queries<double, BruteForce, distances::Euclidean<double> >( P, d, euclidean, "brute force, Euclidean", 1e-12 );
    queries<float,  BruteForce, distances::Euclidean<float> > ( P, d, euclidean, "brute force, Euclidean, float", 1e-6 );
    queries<double, BruteForce, distances::Manhattan<double> >( P, d, manhattan, "brute force, Manhattan", 1e-12 );
    queries<double, BruteForce, distances::Hamming<double> >  ( P, d, hamming,   "brute force, Hamming", 1e-12 );
    if( !P.empty() )
    {
      queries<double, FLANN, distances::Euclidean<double> >( P, d, euclidean, "FLANN, Euclidean", 1e-12 );
      queries<float,  FLANN, distances::Euclidean<float> > ( P, d, euclidean, "FLANN, Euclidean, float", 1e-6 );
      queries<double, FLANN, distances::Manhattan<double> >( P, d, manhattan, "FLANN, Manhattan", 1e-12 );
      queries<double, FLANN, distances::Hamming<double> >  ( P, d, hamming,   "FLANN, Hamming", 1e-12 );
    }
    H().trace();
    H().sample();
  } );
}

template <class D> double value( const D& d, const Pt& a, const Pt& b )
{
  distances::Traits<D> t;
  return t.from( d( a.begin(), b.begin(), a.size() ) );
}

static void functors( unsigned d, const std::vector<double>& alphabet )
{
  Points V = gridPoints( std::vector< std::vector<double> >( d, alphabet ) );
  for( auto&& a : V )
  {
    if( !H().mine() ) continue;
    H().setCase( "distances from " + strPoints( { a } ) );
    H().state();
    H().guarded( "functor", [&]
    {
      distances::Euclidean<double> E;
      distances::Manhattan<double> M;
      distances::Hamming<double>   N;
      distances::Wrapper< distances::Euclidean<double>, Pt > WE;
      distances::Wrapper< distances::Manhattan<double>, Pt > WM;
      distances::Wrapper< distances::Hamming<double>, Pt >   WN;
      for( auto&& b : V )
      {
        H().step();
        H().check( close( value( E, a, b ), euclidean( a, b ) ) && close( WE( a, b ), euclidean( a, b ) ), "euclidean", cat( "wrong Euclidean distance to ", strPoints( { b } ), ": ", value( E, a, b ) ) );
        H().check( value( M, a, b ) == manhattan( a, b ) && WM( a, b ) == manhattan( a, b ), "manhattan", cat( "wrong Manhattan distance to ", strPoints( { b } ), ": ", value( M, a, b ) ) );
        H().check( value( N, a, b ) == hamming( a, b ) && WN( a, b ) == hamming( a, b ), "hamming", cat( "wrong Hamming distance to ", strPoints( { b } ), ": ", value( N, a, b ) ) );
        // Component-wise evaluation, as used by trees
        double e = 0, m = 0, n = 0;
        for( unsigned i = 0; i < d; i++ ) { e += E.accum_dist( a[i], b[i], int( i ) ); m += M.accum_dist( a[i], b[i], int( i ) ); n += N.accum_dist( a[i], b[i], int( i ) ); }
        H().check( close( e, squared( a, b ) ), "euclidean", "component-wise Euclidean distances do not add up" );
        H().check( m == manhattan( a, b ), "manhattan", "component-wise Manhattan distances do not add up" );
        H().check( n == hamming( a, b ), "hamming", "component-wise Hamming distances do not add up" );
      }
      distances::Traits< distances::Euclidean<double> > t;
      for( double x : { 0.0, 1.0, 1.5, 4.0 } ) H().check( t.from( t.to( x ) ) == x, "traits", "distance conversions are not inverse" );
      H().trace();
      H().sample();
    } );
  }
}

template <class T> void diagramPoints( const char* name )
{
  using P = typename aleph::PersistenceDiagram<T>::Point;
  forAllVectors( 4, 4, [&] ( const std::vector<unsigned>& v )
  {
    H().setCase( cat( "diagram points ", name, " ", str( v ) ) );
    H().state();
    H().guarded( "functor", [&]
    {
      P p { T( v[0] ), T( v[1] ) }, q { T( v[2] ), T( v[3] ) };
      int dx = std::abs( int( v[0] ) - int( v[2] ) ), dy = std::abs( int( v[1] ) - int( v[3] ) );
      H().check( double( distances::InfinityDistance<T>()( p, q ) ) == double( std::max( dx, dy ) ), "infinity", "wrong infinity distance" );
      H().check( double( distances::Euclidean<T>()( p, q ) ) == double( dx * dx + dy * dy ), "euclidean", "wrong squared Euclidean distance of points" );
      H().step( 2 );
      H().trace();
    } );
  } );
}

void explore()
{
  bigClouds( H().thorough ? 60 : 30, [&] ( const std::string&, const Points& P, std::size_t d ) { if( H().mine() ) cloud( P, d ); } );

  auto plane = gridPoints( { { 0, 1, 2 }, { 0, 1, 3 } } );
  auto line  = gridPoints( { { -1, 0, 1, 3, 4.5 } } );
  auto space = gridPoints( { { 0, 1 }, { 0, 2 }, { -1, 2 } } );

  for( std::size_t n = 1; n <= 3; n++ )
    forAllPoints( plane, n, false, [&] ( const Points& P ) { if( H().mine() ) magnitudes( P, [&] ( const Points& Q ) { cloud( Q, 2 ); } ); } );
  for( std::size_t n = 0; n <= 3; n++ )
    forAllPoints( plane, n, n <= 2 || H().thorough, [&] ( const Points& P ) { if( H().mine() ) cloud( P, 2 ); } );
  forAllPoints( plane, 4, false, [&] ( const Points& P ) { if( H().mine() ) cloud( P, 2 ); } );
  for( std::size_t n = 1; n <= 5; n++ )
    forAllPoints( line, n, n <= 3, [&] ( const Points& P ) { if( H().mine() ) cloud( P, 1 ); } );
  forAllPoints( space, 3, true, [&] ( const Points& P ) { if( H().mine() ) cloud( P, 3 ); } );
  forAllPoints( gridPoints( std::vector< std::vector<double> >( 5, { 0, 1 } ) ), 2, false, [&] ( const Points& P ) { if( H().mine() ) cloud( P, 5 ); } );
  // Larger sets, i.e. trees with more than one leaf
  {
    auto grid = gridPoints( { { 0, 1, 2, 3 }, { 0, 1, 2, 4 } } );
    for( Mask skip = 0; skip < 256; skip++ )
    {
      if( !H().mine() ) continue;
      Points P;
      for( std::size_t i = 0; i < grid.size(); i++ )
        if( i >= 8 || !( skip >> i & 1 ) ) P.push_back( grid[i] );
      cloud( P, 2 );
    }
  }
  if( H().thorough )
    forAllPoints( plane, 5, false, [&] ( const Points& P ) { if( H().mine() ) cloud( P, 2 ); } );

  functors( 1, { -2, 0, 1, 3.5 } );
  functors( 2, { -2, 0, 1, 3.5 } );
  functors( 3, { -2, 0, 1, 3.5 } );
  functors( 4, { -1, 0, 2 } );
  functors( 5, { -1, 0, 2 } );
  functors( 6, { 0, 2 } );
  functors( 7, { 0, 2 } );
  functors( 8, { 0, 2 } );
  functors( 9, { 1, 3 } );
  if( H().shard == 0 )
  {
    diagramPoints<double>( "double" );
    diagramPoints<int>( "int" );
    diagramPoints<unsigned>( "unsigned" );
  }
}
