// Cech complexes of all small planar point sets against smallest enclosing
// balls found by enumerating all candidate balls.

#include "bridge.hh"
#include "points.hh"

#include <aleph/geometry/CechComplex.hh>

using namespace vf;

// Squared radius of the smallest enclosing ball: it is the circumscribed ball
// of at most d+1 of the points.
static double enclosing( const Points& P )
{
  double best = 1e300;
  std::size_t n = P.size(), d = P[0].size();
  for( Mask m = 1; m < ( Mask(1) << n ); m++ )
  {
    auto v = verts( m );
    std::size_t k = v.size() - 1;
    if( k > d ) continue;
    // Centre p + sum of x_i ( p_i - p ) with equal distances to all points
    std::vector< std::vector<double> > A( k, std::vector<double>( k + 1, 0 ) );
    auto dot = [&] ( std::size_t i, std::size_t j ) { double s = 0; for( std::size_t c = 0; c < d; c++ ) s += ( P[ v[i] ][c] - P[ v[0] ][c] ) * ( P[ v[j] ][c] - P[ v[0] ][c] ); return s; };
    for( std::size_t i = 0; i < k; i++ )
    {
      for( std::size_t j = 0; j < k; j++ ) A[i][j] = 2 * dot( i + 1, j + 1 );
      A[i][k] = dot( i + 1, i + 1 );
    }
    bool singular = false;
    for( std::size_t c = 0; c < k && !singular; c++ )
    {
      std::size_t p = c;
      for( std::size_t i = c; i < k; i++ ) if( std::fabs( A[i][c] ) > std::fabs( A[p][c] ) ) p = i;
      if( std::fabs( A[p][c] ) < 1e-9 ) { singular = true; break; }
      std::swap( A[p], A[c] );
      for( std::size_t i = 0; i < k; i++ )
      {
        if( i == c ) continue;
        double f = A[i][c] / A[c][c];
        for( std::size_t j = c; j <= k; j++ ) A[i][j] -= f * A[c][j];
      }
    }
    if( singular ) continue;
    Pt centre = P[ v[0] ];
    for( std::size_t i = 0; i < k; i++ )
      for( std::size_t c = 0; c < d; c++ ) centre[c] += A[i][k] / A[i][i] * ( P[ v[i+1] ][c] - P[ v[0] ][c] );
    double r2 = squared( centre, P[ v[0] ] );
    bool ok = true;
    for( auto&& p : P ) ok = ok && squared( centre, p ) <= r2 + 1e-9;
    if( ok ) best = std::min( best, r2 );
  }
  return best;
}

template <class T> void run( const Points& P, std::size_t d, const char* name, double eps )
{
  H().setCase( cat( name, " points ", strPoints( P ) ) );
  H().state();
  H().guarded( "construction", [&]
  {
    auto cloud = toCloud<T>( P, d );
    std::map<Mask, double> r2;
    std::vector<double> all = { 0 };
    for( Mask m = 1; m < ( Mask(1) << P.size() ); m++ )
    {
      Points Q;
      for( auto v : verts( m ) ) Q.push_back( P[v] );
      r2[m] = enclosing( Q );
      all.push_back( std::sqrt( r2[m] ) );
    }
    std::sort( all.begin(), all.end() );
    all.erase( std::unique( all.begin(), all.end(), [] ( double a, double b ) { return std::fabs( a - b ) < 1e-6; } ), all.end() );
    for( std::size_t i = 0; i < all.size(); i++ )
    {
      // Radii strictly between the critical ones
      double r = i + 1 < all.size() ? ( all[i] + all[i+1] ) / 2 : all[i] + 0.5;
      auto K = aleph::geometry::buildCechComplex( cloud, T( r ) );
      H().step();
      std::map<Mask, double> got;
      for( auto&& s : K ) got[ toMask( s ) ] = double( s.data() );
      H().check( got.size() == K.size(), "duplicate", "simplices occur more than once" );
      for( auto&& p : r2 )
      {
        bool e = p.second <= r * r;
        H().check( ( got.count( p.first ) != 0 ) == e, "membership", cat( "radius ", r, ": simplex ", strMask( p.first ), e ? " is missing" : " must not be present" ) );
        if( e && got.count( p.first ) )
          H().check( std::fabs( got[p.first] - 2 * std::sqrt( p.second ) ) < eps, "weight", cat( "radius ", r, ": weight of ", strMask( p.first ), " should be its diameter ", 2 * std::sqrt( p.second ), ", got ", got[p.first] ) );
      }
      for( auto&& p : got )
        for( Mask f : facets( p.first ) )
          H().check( got.count( f ) != 0, "closed", cat( "face ", strMask( f ), " is missing" ) );
    }

    // The bound itself is included; this can be decided for edges whose
    // length is a number that squares without rounding. Slightly smaller
    // and slightly larger bounds are decided for all simplices.
    for( auto&& p : r2 )
    {
      if( p.second == 0 ) continue;
      double r = std::sqrt( p.second );
      for( int k = -1; k <= 1; k++ )
      {
        if( k == 0 && ( dim( p.first ) != 1 || 4 * r != std::floor( 4 * r ) ) ) continue;
        auto K = aleph::geometry::buildCechComplex( cloud, T( r * ( 1 + k * 0.125 * eps ) ) );
        bool found = false;
        for( auto&& s : K ) found = found || toMask( s ) == p.first;
        H().step();
        H().check( found == ( k >= 0 ), "bound", cat( "radius ", r, k < 0 ? "-" : k > 0 ? "+" : "", ": simplex ", strMask( p.first ), k >= 0 ? " is missing" : " must not be present" ) );
      }
    }
    H().trace();
    H().sample();
  } );
}

void explore()
{
  auto plane = gridPoints( { { 0, 1, 3 }, { 0, 2, 3 } } );
  auto fine  = gridPoints( { { 0, 1, 2, 4 }, { 0, 1, 3, 4 } } );
  auto line  = gridPoints( { { -1, 0, 1, 3, 4.5 } } );
  auto space = gridPoints( { { 0, 1 }, { 0, 2 }, { -1, 2 } } );
  auto hyper = gridPoints( { { 0, 1 }, { 0, 2 }, { -1, 2 }, { 0, 1 } } );
  for( std::size_t n = 1; n <= 4; n++ )
    forAllPoints( space, n, n <= 2, [&] ( const Points& P ) { if( H().mine() ) run<double>( P, 3, "double", 1e-6 ); } );
  for( std::size_t n = 1; n <= 3; n++ )
    forAllPoints( hyper, n, false, [&] ( const Points& P ) { if( H().mine() ) run<double>( P, 4, "double", 1e-6 ); } );
  bigClouds( 7, [&] ( const std::string&, const Points& P, std::size_t d ) { if( H().mine() ) run<double>( P, d, "double", 1e-6 ); } );
  for( std::size_t n = 1; n <= 4; n++ )
    forAllPoints( plane, n, n <= 3, [&] ( const Points& P ) { if( H().mine() ) { run<double>( P, 2, "double", 1e-6 ); if( n <= 2 ) run<float>( P, 2, "float", 1e-3 ); } } );
  forAllPoints( fine, 3, false, [&] ( const Points& P ) { if( H().mine() ) run<double>( P, 2, "double", 1e-6 ); } );
  for( std::size_t n = 1; n <= 4; n++ )
    forAllPoints( line, n, n <= 3, [&] ( const Points& P ) { if( H().mine() ) run<double>( P, 1, "double", 1e-6 ); } );
  if( H().thorough )
  {
    forAllPoints( fine, 4, false, [&] ( const Points& P ) { if( H().mine() ) run<double>( P, 2, "double", 1e-6 ); } );
    forAllPoints( plane, 5, false, [&] ( const Points& P ) { if( H().mine() ) run<double>( P, 2, "double", 1e-6 ); } );
  }
  else
  {
    std::size_t i = 0;
    // Five distinct points
    for( Mask m = 0; m < 512; m++ )
      if( __builtin_popcount( m ) == 5 && ++i && H().mine() )
      {
        Points P;
        for( auto v : verts( m ) ) P.push_back( plane[v] );
        run<double>( P, 2, "double", 1e-6 );
      }
  }
}
