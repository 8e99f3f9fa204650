// Beta-skeletons of all small planar point sets.

#include "bridge.hh"
#include "points.hh"

#include <aleph/geometry/BetaSkeleton.hh>
#include <aleph/geometry/distances/Euclidean.hh>

using namespace vf;

// -1: outside of the closed region, 1: inside, 0: too close to its border to
// be decided without rounding
static int inside( const Pt& p, const Pt& q, const Pt& r, double beta )
{
  double d2 = squared( p, q );
  Pt a( p.size() ), b( p.size() );
  for( std::size_t i = 0; i < p.size(); i++ )
  {
    a[i] = ( 1 - beta / 2 ) * p[i] + beta / 2 * q[i];
    b[i] = ( 1 - beta / 2 ) * q[i] + beta / 2 * p[i];
  }
  double R2 = beta * beta * d2 / 4;
  double x = std::max( squared( a, r ), squared( b, r ) ) - R2;
  double d = std::sqrt( d2 );
  bool exact = d / unit() == std::floor( d / unit() ); // all intermediate values are dyadic
  if( exact ) return x <= 0 ? 1 : -1;
  if( std::fabs( x ) < 1e-9 * unit() * unit() ) return 0;
  return x < 0 ? 1 : -1;
}

static void run( const Points& P, std::size_t d )
{
  H().setCase( "points " + strPoints( P ) );
  H().state();
  H().guarded( "construction", [&]
  {
    auto cloud = toCloud<double>( P, d );
    std::set<Mask> previous;
    bool first = true;
    for( double beta : { 1.0, 1.25, 1.5, 2.0, 3.0, 4.0 } )
    {
      auto K = aleph::geometry::buildBetaSkeletonNaive< aleph::geometry::distances::Euclidean<double> >( cloud, beta );
      H().step();
      auto w = toWeights( K );
      H().check( w.size() == K.size(), "duplicate", "simplices occur more than once" );
      std::set<Mask> edges;
      bool undecided = false;
      for( std::size_t i = 0; i < P.size(); i++ )
      {
        Mask m = Mask(1) << i;
        H().check( w.count( m ) && w[m] == 0, "vertices", cat( "vertex ", i, " is missing or has a weight" ) );
        for( std::size_t j = i + 1; j < P.size(); j++ )
        {
          Mask e = m | ( Mask(1) << j );
          if( w.count( e ) ) edges.insert( e );
          int state = -1;
          for( std::size_t r = 0; r < P.size(); r++ )
            if( r != i && r != j )
            {
              int s = inside( P[i], P[j], P[r], beta );
              if( s == 1 ) { state = 1; break; }
              if( s == 0 ) state = 0;
            }
          if( state == 0 ) { undecided = true; H().note( "edges with a point on the border of the region (not judged)" ); continue; }
          H().check( ( w.count( e ) != 0 ) == ( state == -1 ), "edges", cat( "beta ", beta, ": edge ", i, "-", j, state == -1 ? " is missing" : " must not be present" ) );
          if( w.count( e ) ) H().check( close( w[e], euclidean( P[i], P[j] ) ), "weight", cat( "weight of edge ", i, "-", j, " should be its length" ) );
        }
      }
      H().check( K.size() == P.size() + edges.size(), "extra", "skeleton contains other simplices" );
      if( !first && !undecided )
        H().check( std::includes( previous.begin(), previous.end(), edges.begin(), edges.end() ), "monotone", cat( "beta ", beta, " adds edges" ) );
      previous = edges;
      first    = undecided;
    }
    H().trace();
    H().sample();
  } );
}

void explore()
{
  bigClouds( H().thorough ? 31 : 24, [&] ( const std::string&, const Points& P, std::size_t d ) { if( P.size() <= 31 && H().mine() ) run( P, d ); } );

  auto plane = gridPoints( { { 0, 1, 2 }, { 0, 1, 3 } } );
  auto odd   = gridPoints( { { 0, 3, 4, 7 }, { 0, 1, 4, 6 } } );
  auto line  = gridPoints( { { -1, 0, 1, 3, 4.5 } } );
  auto space = gridPoints( { { 0, 1 }, { 0, 2 }, { -1, 2 } } );
  forAllPoints( plane, 3, false, [&] ( const Points& P ) { if( H().mine() ) magnitudes( P, [&] ( const Points& Q ) { run( Q, 2 ); } ); } );
  forAllPoints( odd, 4, false, [&] ( const Points& P ) { if( H().mine() ) magnitudes( P, [&] ( const Points& Q ) { run( Q, 2 ); } ); } );
  for( std::size_t n = 0; n <= 3; n++ )
    forAllPoints( plane, n, true, [&] ( const Points& P ) { if( H().mine() ) run( P, 2 ); } );
  forAllPoints( plane, 4, false, [&] ( const Points& P ) { if( H().mine() ) run( P, 2 ); } );
  forAllPoints( plane, 5, false, [&] ( const Points& P ) { if( H().mine() ) run( P, 2 ); } );
  forAllPoints( odd, 3, false, [&] ( const Points& P ) { if( H().mine() ) run( P, 2 ); } );
  forAllPoints( odd, 4, false, [&] ( const Points& P ) { if( H().mine() ) run( P, 2 ); } );
  forAllPoints( line, 4, false, [&] ( const Points& P ) { if( H().mine() ) run( P, 1 ); } );
  forAllPoints( space, 4, false, [&] ( const Points& P ) { if( H().mine() ) run( P, 3 ); } );
  if( H().thorough ) forAllPoints( odd, 5, false, [&] ( const Points& P ) { if( H().mine() ) run( P, 2 ); } );
}
