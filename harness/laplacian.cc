// Laplacians, heat kernels, bisections and combinatorial curvatures.

#include "big.hh"

#include <aleph/geometry/HeatKernel.hh>
#include <aleph/topology/CombinatorialCurvature.hh>
#include <aleph/topology/Partitions.hh>

using namespace vf;

using S  = aleph::topology::Simplex<double, unsigned>;
using K_ = aleph::topology::SimplicialComplex<S>;
using M_ = std::vector< std::vector<double> >;

// Spectral decomposition by Jacobi rotations; eigenvectors are columns of V
static void jacobi( M_ A, std::vector<double>& values, M_& V )
{
  std::size_t n = A.size();
  V.assign( n, std::vector<double>( n, 0 ) );
  for( std::size_t i = 0; i < n; i++ ) V[i][i] = 1;
  for( int sweep = 0; sweep < 100; sweep++ )
  {
    double off = 0;
    for( std::size_t p = 0; p < n; p++ ) for( std::size_t q = p + 1; q < n; q++ ) off += A[p][q] * A[p][q];
    if( off < 1e-28 ) break;
    for( std::size_t p = 0; p < n; p++ )
      for( std::size_t q = p + 1; q < n; q++ )
      {
        if( std::abs( A[p][q] ) < 1e-300 ) continue;
        double theta = ( A[q][q] - A[p][p] ) / ( 2 * A[p][q] );
        double t = ( theta >= 0 ? 1 : -1 ) / ( std::abs( theta ) + std::sqrt( theta * theta + 1 ) ), c = 1 / std::sqrt( t * t + 1 ), s = t * c;
        for( std::size_t k = 0; k < n; k++ ) { double x = A[k][p], y = A[k][q]; A[k][p] = c * x - s * y; A[k][q] = s * x + c * y; }
        for( std::size_t k = 0; k < n; k++ ) { double x = A[p][k], y = A[q][k]; A[p][k] = c * x - s * y; A[q][k] = s * x + c * y; }
        for( std::size_t k = 0; k < n; k++ ) { double x = V[k][p], y = V[k][q]; V[k][p] = c * x - s * y; V[k][q] = s * x + c * y; }
      }
  }
  values.clear();
  for( std::size_t i = 0; i < n; i++ ) values.push_back( A[i][i] );
}

static void graph( const Order& o, const std::map<Mask, double>& w )
{
  H().setCase( "graph " + strWeighted( o, [&] ( Mask m ) { return w.at( m ); } ) );
  H().state();
  H().guarded( "laplacian", [&]
  {
    auto K = toComplex<K_>( o, [&] ( Mask m ) { return w.at( m ); } );
    std::vector<unsigned> v;
    for( Mask m : o ) if( dim( m ) == 0 ) v.push_back( verts( m )[0] );
    std::sort( v.begin(), v.end() );
    std::size_t n = v.size();
    M_ A( n, std::vector<double>( n, 0 ) ), L = A;
    for( std::size_t i = 0; i < n; i++ )
      for( std::size_t j = 0; j < n; j++ )
      {
        Mask e = ( Mask(1) << v[i] ) | ( Mask(1) << v[j] );
        if( i != j && w.count( e ) ) { A[i][j] = w.at( e ); L[i][j] -= A[i][j]; L[i][i] += A[i][j]; }
      }
    auto W = aleph::geometry::weightedAdjacencyMatrix( K );
    auto G = aleph::geometry::weightedLaplacianMatrix( K );
    H().step( 2 );
    bool sizes = std::size_t( W.rows() ) == n && std::size_t( W.cols() ) == n && std::size_t( G.rows() ) == n && std::size_t( G.cols() ) == n;
    H().check( sizes, "size", "wrong size of matrices" );
    if( !sizes ) return;
    for( std::size_t i = 0; i < n; i++ )
      for( std::size_t j = 0; j < n; j++ )
      {
        H().check( W( long( i ), long( j ) ) == A[i][j], "adjacency", cat( "entry (", i, ",", j, ") of the adjacency matrix should be ", A[i][j], ", got ", W( long( i ), long( j ) ) ) );
        H().check( G( long( i ), long( j ) ) == L[i][j], "laplacian", cat( "entry (", i, ",", j, ") of the Laplacian should be ", L[i][j], ", got ", G( long( i ), long( j ) ) ) );
      }

    std::vector<double> lambda;
    M_ V;
    jacobi( L, lambda, V );
    std::vector<double> sorted = lambda;
    std::sort( sorted.begin(), sorted.end() );
    bool connected = n == 1 || sorted[1] > 1e-6;

    if( connected )
    {
      auto P = aleph::geometry::pinvWeightedLaplacianMatrix( K );
      H().step();
      for( std::size_t i = 0; i < n; i++ )
        for( std::size_t j = 0; j < n; j++ )
        {
          double e = 0;
          for( std::size_t k = 0; k < n; k++ ) if( lambda[k] > 1e-6 ) e += V[i][k] * V[j][k] / lambda[k];
          H().check( close( P( long( i ), long( j ) ), e, 1e-7 ), "pseudo-inverse", cat( "entry (", i, ",", j, ") of the pseudo-inverse should be ", e, ", got ", P( long( i ), long( j ) ) ) );
        }
    }

    aleph::geometry::HeatKernel hk( K );
    for( double t : { 0.0, 0.25, 1.0, 3.0 } )
    {
      double trace = 0, det = 1;
      for( double l : lambda ) { trace += std::exp( -t * l ); det *= std::exp( -t * l ); }
      H().step( 3 );
      H().check( close( hk.trace( t ), trace, 1e-7 ), "trace", cat( "trace at ", t, " should be ", trace, ", got ", hk.trace( t ) ) );
      H().check( close( hk.determinant( t ), det, 1e-7 ), "determinant", cat( "determinant at ", t, " should be ", det, ", got ", hk.determinant( t ) ) );
      auto all = hk( t );
      H().check( all.size() == n * n, "kernel", cat( "number of values should be ", n * n, ", got ", all.size() ) );
      for( std::size_t i = 0; i < n; i++ )
        for( std::size_t j = 0; j < n; j++ )
        {
          double e = 0;
          for( std::size_t k = 0; k < n; k++ ) e += V[i][k] * V[j][k] * std::exp( -t * lambda[k] );
          double g = hk( long( i ), long( j ), t );
          H().check( close( g, e, 1e-7 ), "kernel", cat( "heat kernel (", i, ",", j, ") at ", t, " should be ", e, ", got ", g ) );
          if( i == j ) H().check( close( hk( long( i ), t ), e, 1e-7 ), "auto-diffusion", cat( "auto-diffusion of ", i, " at ", t, " should be ", e, ", got ", hk( long( i ), t ) ) );
          if( all.size() == n * n ) H().check( close( all[ i * n + j ], e, 1e-7 ), "kernel", cat( "heat kernel value (", i, ",", j, ") at ", t, " should be ", e, ", got ", all[ i * n + j ] ) );
        }
    }
    if( connected && n >= 2 )
      for( unsigned m : { 2u, 5u } )
      {
        auto s = hk.logarithmicSamplingInterval( m );
        H().step();
        double a = 4 * std::log( 10.0 ) / sorted.back(), b = 4 * std::log( 10.0 ) / sorted[1];
        H().check( s.size() == m, "sampling", "wrong number of samples" );
        for( unsigned i = 0; i < s.size(); i++ )
        {
          double e = a * std::pow( b / a, double( i ) / double( m - 1 ) );
          H().check( close( s[i], e, 1e-6 ), "sampling", cat( "sample ", i, " should be ", e, ", got ", s[i] ) );
        }
      }
    H().trace();
    H().sample();
  } );
}

static void bisection( const Order& o, const std::map<Mask, double>& w )
{
  H().setCase( "bisection " + strWeighted( o, [&] ( Mask m ) { return w.at( m ); } ) );
  H().state();
  H().guarded( "bisection", [&]
  {
    auto K  = toComplex<K_>( o, [&] ( Mask m ) { return w.at( m ); } );
    auto Ks = aleph::topology::bisect( K );
    H().step();
    H().check( Ks.size() == 2, "bisection", "two parts are expected" );
    if( Ks.size() != 2 ) return;
    Mask all = 0, part[2] = { 0, 0 };
    for( Mask m : o ) all |= m;
    for( int i = 0; i < 2; i++ ) for( auto&& s : Ks[ std::size_t( i ) ] ) part[i] |= toMask( s );
    H().check( ( part[0] & part[1] ) == 0 && ( part[0] | part[1] ) == all, "bisection", "parts are not complementary" );
    for( int i = 0; i < 2; i++ )
    {
      std::map<Mask, double> e;
      for( Mask m : o ) if( ( m & part[i] ) == m ) e[m] = w.at( m );
      H().check( toWeights( Ks[ std::size_t( i ) ] ) == e && Ks[ std::size_t( i ) ].size() == e.size(), "bisection", cat( "part ", i, " is not the subcomplex induced on its vertices" ) );
    }
    int n = __builtin_popcount( all ), a = __builtin_popcount( part[0] ), b = __builtin_popcount( part[1] );
    H().check( a <= n / 2 && b >= ( n + 1 ) / 2, "bisection", cat( "sizes of parts are ", a, " and ", b ) );

    // The vertices of the first part are those below the median of the
    // second eigenvector, which is unique up to its sign if the second
    // eigenvalue is simple.
    std::vector<unsigned> v;
    for( Mask m : o ) if( dim( m ) == 0 ) v.push_back( verts( m )[0] );
    std::sort( v.begin(), v.end() );
    M_ L( v.size(), std::vector<double>( v.size(), 0 ) ), V;
    for( std::size_t i = 0; i < v.size(); i++ )
      for( std::size_t j = 0; j < v.size(); j++ )
      {
        Mask e = ( Mask(1) << v[i] ) | ( Mask(1) << v[j] );
        if( i != j && w.count( e ) ) { L[i][j] -= w.at( e ); L[i][i] += w.at( e ); }
      }
    std::vector<double> lambda;
    jacobi( L, lambda, V );
    std::vector<std::size_t> index( v.size() );
    for( std::size_t i = 0; i < v.size(); i++ ) index[i] = i;
    std::sort( index.begin(), index.end(), [&] ( std::size_t i, std::size_t j ) { return lambda[i] < lambda[j]; } );
    if( lambda[ index[1] ] < 1e-6 || ( v.size() > 2 && lambda[ index[2] ] - lambda[ index[1] ] < 1e-6 ) ) H().note( "bisections with several solutions" );
    else
    {
      bool any = false;
      for( double sign : { 1.0, -1.0 } )
      {
        std::vector<double> x, y;
        for( std::size_t i = 0; i < v.size(); i++ ) x.push_back( sign * V[i][ index[1] ] );
        y = x;
        std::sort( y.begin(), y.end() );
        double median = n % 2 ? y[ y.size() / 2 ] : ( y[ y.size() / 2 - 1 ] + y[ y.size() / 2 ] ) / 2;
        bool fits = true;
        for( std::size_t i = 0; i < v.size(); i++ )
        {
          bool first = part[0] >> v[i] & 1;
          if( ( x[i] < median - 1e-7 && !first ) || ( x[i] > median + 1e-7 && first ) ) fits = false;
        }
        any = any || fits;
      }
      H().note( "bisections with a single solution" );
      H().check( any, "bisection-median", "parts are not separated by the median of the second eigenvector" );
    }
    H().trace();
    H().sample();
  } );
}

static void curvatures( const Order& o, const std::map<Mask, double>& w )
{
  H().setCase( "curvature " + strWeighted( o, [&] ( Mask m ) { return w.at( m ); } ) );
  H().state();
  H().guarded( "curvature", [&]
  {
    auto K = toComplex<K_>( o, [&] ( Mask m ) { return w.at( m ); } );
    std::set<Mask> in( o.begin(), o.end() );
    for( int p = 1; p <= maxDim( o ); p++ )
    {
      std::vector<int> plain, ePlain;
      std::vector<double> weighted, eWeighted;
      aleph::topology::curvature( K, std::back_inserter( plain ), unsigned( p ) );
      aleph::topology::weightedCurvature( K, std::back_inserter( weighted ), unsigned( p ) );
      H().step( 2 );
      auto range = K.range( std::size_t( p ) );
      for( auto it = range.first; it != range.second; ++it )
      {
        Mask s = toMask( *it );
        int cofaces = 0, faces = p + 1, neighbours = 0;
        double x = 0, y = 0;
        for( Mask t : o )
        {
          if( dim( t ) == p + 1 && ( t & s ) == s ) { ++cofaces; x += w.at( s ) / w.at( t ); }
          if( dim( t ) == p - 1 && ( t & s ) == t ) x += w.at( t ) / w.at( s );
          if( t != s && dim( t ) == p )
          {
            bool face = dim( s & t ) == p - 1, coface = face && in.count( s | t );
            if( face != coface ) ++neighbours;
            double r = std::sqrt( w.at( s ) * w.at( t ) );
            y += std::abs( ( coface ? r / w.at( s | t ) : 0 ) - ( face ? w.at( s & t ) / r : 0 ) );
          }
        }
        ePlain.push_back( cofaces + faces - neighbours );
        eWeighted.push_back( w.at( s ) * ( x - y ) );
      }
      H().check( plain == ePlain, "curvature", cat( "curvatures in dimension ", p, " should be ", str( ePlain ), ", got ", str( plain ) ) );
      H().check( weighted.size() == eWeighted.size(), "weighted-curvature", "wrong number of weighted curvatures" );
      for( std::size_t i = 0; i < weighted.size() && i < eWeighted.size(); i++ )
        H().check( close( weighted[i], eWeighted[i] ), "weighted-curvature", cat( "weighted curvatures in dimension ", p, " should be ", str( eWeighted ), ", got ", str( weighted ) ) );
    }
    int n = maxDim( o );
    if( n >= 2 )
    {
      std::vector<double> g, e;
      aleph::topology::angleDefectCurvature( K, std::back_inserter( g ) );
      H().step();
      auto range = K.range( std::size_t( n - 2 ) );
      for( auto it = range.first; it != range.second; ++it )
      {
        int d = 0;
        for( Mask t : o ) d += dim( t ) == n && ( t & toMask( *it ) ) == toMask( *it );
        e.push_back( 2 * M_PI - std::acos( 1.0 / n ) * d );
      }
      bool same = g.size() == e.size();
      for( std::size_t i = 0; same && i < g.size(); i++ ) same = close( g[i], e[i] );
      H().check( same, "angle-defect", cat( "angle defects should be ", str( e ), ", got ", str( g ) ) );
    }
    H().trace();
    H().sample();
  } );
}

void explore()
{
  auto weights = [] ( const Order& o, unsigned seed )
  {
    std::map<Mask, double> w;
    for( Mask m : o ) w[m] = seed ? 1.0 + double( ( m * 7 + seed ) % 5 ) * 0.5 : 1.0;
    return w;
  };
  auto relabel = [] ( Order o )
  {
    for( auto& m : o ) { Mask x = 0; for( auto v : verts( m ) ) x |= Mask(1) << ( 2 * v + 3 ); m = x; }
    std::reverse( o.begin(), o.end() );
    return o;
  };

  // Families of larger graphs and complexes
  bigGraphs( H().thorough ? 30 : 16, [&] ( const std::string&, unsigned n, const std::vector< std::pair<unsigned, unsigned> >& edges )
  {
    for( unsigned seed = 0; seed < 2; seed++ )
    {
      if( !H().mine() ) continue;
      Big K;
      for( unsigned i = 0; i < n; i++ ) K.push_back( { i } );
      for( auto&& e : edges ) K.push_back( { e.first, e.second } );
      Order o = toMasks( seed ? ordered( relabelled( K, 2 ), 3 ) : K );
      graph( o, weights( o, seed ) );
      if( n >= 2 ) bisection( o, weights( o, 2 * seed ) );
    }
  } );
  bigComplexes( H().thorough ? 200 : 80, [&] ( const std::string&, const Big& K )
  {
    if( verticesOf( K ) > 30 ) return;
    for( unsigned seed = 0; seed < 2; seed++ )
    {
      if( !H().mine() ) continue;
      Order o = toMasks( seed ? ordered( relabelled( K, 2 ), 4 ) : K );
      curvatures( o, weights( o, 2 * seed ) );
      if( maxDim( o ) > 1 ) bisection( o, weights( o, seed ) );
    }
  } );

  // All graphs with all weights from a small set
  for( unsigned n = 1; n <= 4; n++ )
  {
    auto E = allEdges( n );
    forAllVectors( E.size(), 3, [&] ( const std::vector<unsigned>& x )
    {
      if( !H().mine() ) return;
      Order o;
      std::map<Mask, double> w;
      for( unsigned i = 0; i < n; i++ ) { o.push_back( Mask(1) << i ); w[ o.back() ] = 7; }
      for( std::size_t i = 0; i < E.size(); i++ ) if( x[i] ) { o.push_back( ( Mask(1) << E[i].u ) | ( Mask(1) << E[i].v ) ); w[ o.back() ] = x[i] == 1 ? 1 : 2.5; }
      graph( o, w );
      if( n >= 2 ) bisection( o, w );
      curvatures( o, w );
    } );
  }
  for( auto&& G : allComplexes( 5, 1 ) )
  {
    if( G.empty() || !H().mine() ) continue;
    Order r = relabel( G );
    graph( r, weights( r, 1 ) );
    if( std::count_if( G.begin(), G.end(), [] ( Mask m ) { return dim( m ) == 0; } ) >= 2 ) bisection( r, weights( r, 2 ) );
    curvatures( r, weights( r, 0 ) );
  }
  // All complexes
  for( auto&& K : allComplexes( 4 ) )
  {
    if( K.empty() || !H().mine() ) continue;
    Order r = relabel( K );
    for( unsigned seed = 0; seed < 4; seed++ ) { curvatures( K, weights( K, seed ) ); curvatures( r, weights( r, seed ) ); }
    graph( K, weights( K, 3 ) );
    if( std::count_if( K.begin(), K.end(), [] ( Mask m ) { return dim( m ) == 0; } ) >= 2 ) { bisection( K, weights( K, 0 ) ); bisection( r, weights( r, 1 ) ); }
  }
  for( auto&& K : complexesUpToIsomorphism( 3 ) )
    monotoneWeights( K, 3, [&] ( const std::map<Mask, unsigned>& x )
    {
      if( !H().mine() || K.empty() ) return;
      std::map<Mask, double> w;
      for( auto&& p : x ) w[ p.first ] = 1 << ( 2 * p.second );
      curvatures( K, w );
    } );
  auto five = H().thorough ? allComplexes( 5 ) : complexesUpToIsomorphism( 5 );
  for( auto&& K : five )
  {
    if( K.empty() || !H().mine() ) continue;
    curvatures( K, weights( K, 0 ) );
    curvatures( K, weights( K, 2 ) );
  }
}
