// Bottleneck, Hausdorff and nearest-neighbour distances of all pairs of small
// diagrams.

#include "pd.hh"

#include <aleph/persistenceDiagrams/Distances.hh>
#include <aleph/persistenceDiagrams/distances/PointSet.hh>

using namespace vf;

// Known finding: the graph used by the library connects only one point of the
// second (smaller) diagram with the diagonal, with the costs of any of its
// points, and lacks edges between projections. This is the smallest threshold
// for which that graph has a perfect matching.
static double incompleteGraph( Pairs a, Pairs b )
{
  if( a.size() < b.size() ) a.swap( b );
  std::size_t n = a.size(), m = b.size(), N = n + m;
  std::vector< std::vector<double> > w( N, std::vector<double>( N, -1 ) );
  auto add = [&] ( std::size_t i, std::size_t j, double x ) { if( w[i][j] < 0 || x < w[i][j] ) w[i][j] = x; };
  for( std::size_t i = n; i < N; i++ ) for( std::size_t j = i; j < N; j++ ) add( i, j, 0 );
  for( std::size_t i = 0; i < n; i++ )
  {
    for( std::size_t j = 0; j < m; j++ ) add( i, j, chebyshev( a[i], b[j] ) );
    add( i, m + i, toDiagonal( a[i] ) );
  }
  for( std::size_t j = 0; j < m; j++ ) add( n, 0, toDiagonal( b[j] ) );
  std::set<double> values;
  for( auto&& r : w ) for( auto x : r ) if( x >= 0 ) values.insert( x );
  for( double t : values )
  {
    std::vector<int> mate( N, -1 );
    std::vector<char> seen;
    std::function<bool( std::size_t )> augment = [&] ( std::size_t i )
    {
      for( std::size_t j = 0; j < N; j++ )
        if( w[i][j] >= 0 && w[i][j] <= t && !seen[j] )
        {
          seen[j] = 1;
          if( mate[j] < 0 || augment( std::size_t( mate[j] ) ) ) { mate[j] = int( i ); return true; }
        }
      return false;
    };
    bool perfect = true;
    for( std::size_t i = 0; i < N && perfect; i++ ) { seen.assign( N, 0 ); perfect = augment( i ); }
    if( perfect ) return t;
  }
  return N == 0 ? 0 : -1;
}

template <class T> void run( const Pairs& a, const Pairs& b, const char* name )
{
  H().setCase( cat( name, " ", show( a ), " and ", show( b ) ) );
  H().state();
  H().guarded( "distance", [&]
  {
    auto A = toDiagram<T>( a ), B = toDiagram<T>( b );
    double e = a.size() + b.size() > 8 ? thresholdMatching( matchingCosts( a, b, 1 ) ) : INF;
    if( e == INF ) allMatchings( a, b, [&] ( const std::vector<double>& costs )
    {
      double m = 0;
      for( auto c : costs ) m = std::max( m, c );
      e = std::min( e, m );
    } );
    double g = double( aleph::distances::bottleneckDistance( A, B ) );
    H().step();
    H().note( "bottleneck distances" );
    if( g != e && g == incompleteGraph( a, b ) )
    {
      H().note( "bottleneck distances affected by the known finding" );
      H().fail( "bottleneck-incomplete-graph", cat( "bottleneck distance should be ", e, ", got ", g ) );
    }
    else
      H().check( g == e, "bottleneck", cat( "bottleneck distance should be ", e, ", got ", g ) );

    bool finite = true;
    for( auto&& p : a ) finite = finite && p.second != INF;
    for( auto&& p : b ) finite = finite && p.second != INF;
    if( finite )
    {
      double h = 0, s = 0;
      for( int side = 0; side < 2; side++ )
        for( auto&& p : side ? a : b )
        {
          double d = INF;
          for( auto&& q : side ? b : a ) d = std::min( d, chebyshev( p, q ) );
          h = std::max( h, d );
          s += d / 2;
        }
      g = double( aleph::distances::hausdorffDistance( A, B ) );
      H().step( 3 );
      H().check( g == h, "hausdorff", cat( "Hausdorff distance should be ", h, ", got ", g ) );
      g = double( aleph::distances::sumOfMinimumDistances( A, B ) );
      H().check( g == s, "minimum-distances", cat( "sum of minimum distances should be ", s, ", got ", g ) );
      if( a.empty() == b.empty() )
      {
        g = double( aleph::distances::nearestNeighbourDistance( A, B ) );
        H().check( g == s, "nearest-neighbour", cat( "nearest-neighbour distance should be ", s, ", got ", g ) );
      }
    }
    H().trace();
    H().sample();
  } );
}

template <class T> void all( const Pairs& alphabet, std::size_t n, std::size_t m, const char* name )
{
  auto left = allDiagrams( alphabet, n ), right = allDiagrams( alphabet, m );
  for( auto&& a : left )
    for( auto&& b : right )
    {
      if( !H().mine() ) continue;
      run<T>( a, b, name );
      auto c = b;
      std::reverse( c.begin(), c.end() );
      run<T>( c, a, name );
    }
}

void explore()
{
  // Families of larger diagrams, every one with every other of similar size
  auto large = bigDiagrams( H().thorough ? 16 : 10 );
  for( auto&& a : large )
    for( auto&& b : large )
      if( a.second.size() + b.second.size() > 6 && ( a.second.size() == b.second.size() || a.second.size() == b.second.size() + 1 || b.second.size() == 3 || a.second.size() == 2 ) && H().mine() )
        run<double>( a.second, b.second, "double" );
  all<double>( { { 0, 1 }, { 0, 2 }, { 1, 3 }, { 1, 1 }, { -1, 4 }, { 2, 3.5 } }, 3, 2, "double" );
  all<double>( { { 0, 4 }, { 1, 3 }, { 2, 10 }, { 5, 9 } }, 4, 3, "double" );
  all<double>( { { 0, INF }, { 2, INF }, { 0, 3 }, { 1, 8 } }, 3, 3, "double" );
  all<float>( { { 0, 1 }, { 0.5, 2 }, { 3, 5 } }, 3, 3, "float" );
  // Very small and very large coordinates
  for( double c : SCALES )
  {
    all<double>( scaled( { { 0, 1 }, { 1, 3 }, { 2, 10 }, { 5, 5.5 } }, c ), 3, 2, "double" );
    all<float>( scaled( { { 0, 1 }, { 0.5, 2 }, { 3, 5 } }, c ), 2, 2, "float" );
  }
  // Upper- and lower-level features
  all<double>( { { 2, 0 }, { 3, -1 }, { 0, 4 } }, 3, 3, "double" );
  if( H().thorough )
  {
    all<double>( { { 0, 1 }, { 0, 2 }, { 1, 3 }, { 1, 1 }, { -1, 4 }, { 2, 3.5 } }, 4, 3, "double" );
    all<double>( { { 0, 4 }, { 1, 3 }, { 2, 10 }, { 5, 9 } }, 4, 4, "double" );
  }
}
