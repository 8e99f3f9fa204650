// Dowker complexes of all small weighted relations.

#include "big.hh"

#include <aleph/geometry/DowkerComplex.hh>

using namespace vf;
using namespace aleph::geometry;

using Matrix = std::vector< std::vector<double> >;

static const double NONE = 1e300;

static Matrix distances( const Matrix& W )
{
  std::size_t n = W.size();
  Matrix D( n, std::vector<double>( n, NONE ) );
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = 0; j < n; j++ )
      if( W[i][j] > 0 ) D[i][j] = W[i][j];
  for( std::size_t i = 0; i < n; i++ ) D[i][i] = 0;
  // Paths with at most n steps, by repeated relaxation
  for( std::size_t s = 0; s < n; s++ )
    for( std::size_t i = 0; i < n; i++ )
      for( std::size_t j = 0; j < n; j++ )
        for( std::size_t k = 0; k < n; k++ )
          if( D[i][k] < NONE && D[k][j] < NONE )
            D[i][j] = std::min( D[i][j], D[i][k] + D[k][j] );
  return D;
}

// base(b, v): value at which v is related to the base point b
template <class F> std::map<Mask, double> dowker( std::size_t n, double R, unsigned dimension, F base )
{
  std::map<Mask, double> e;
  for( Mask m = 1; m < ( Mask(1) << n ); m++ )
  {
    if( dimension && dim( m ) > int( dimension ) ) continue;
    double best = NONE;
    for( std::size_t b = 0; b < n; b++ )
    {
      double x = 0;
      for( auto v : verts( m ) ) x = std::max( x, base( b, v ) );
      best = std::min( best, x );
    }
    if( best <= R ) e[m] = best;
  }
  return e;
}

template <class K> void compare( const K& k, const std::map<Mask, double>& e, const std::string& what )
{
  auto got = toWeights( k );
  H().step();
  H().check( got.size() == k.size(), "duplicate", what + ": simplices occur more than once" );
  std::map<Mask, double> g( got.begin(), got.end() );
  std::string a, b;
  for( auto&& p : e ) a += strMask( p.first ) + ":" + str( p.second ) + " ";
  for( auto&& p : g ) b += strMask( p.first ) + ":" + str( p.second ) + " ";
  H().check( g == e, "complex", cat( what, " should be ", a, ", got ", b ) );
  std::set<Mask> seen;
  double last = -1;
  for( auto&& s : k )
  {
    H().check( s.data() >= last, "order", what + " is not sorted" );
    last = s.data();
    for( Mask f : facets( toMask( s ) ) ) H().check( seen.count( f ) != 0, "order", what + ": face follows coface" );
    seen.insert( toMask( s ) );
  }
}

static std::vector<unsigned> bettiAt( const std::map<Mask, double>& w, double t )
{
  Order o;
  for( auto&& p : w ) if( p.second <= t ) o.push_back( p.first );
  std::sort( o.begin(), o.end(), byDimension );
  if( o.size() > 60 )
  {
    Big b;
    for( Mask m : o ) b.push_back( verts( m ) );
    return bigBetti( b, 3 );
  }
  return betti( o, 3 );
}

static void run( const Matrix& W )
{
  std::string text = "matrix";
  for( auto&& r : W ) text += " " + str( r );
  H().setCase( text );
  H().state();
  H().guarded( "construction", [&]
  {
    std::size_t n = W.size();
    auto D = distances( W );
    std::set<double> values;
    for( auto&& r : D ) for( double x : r ) if( x < NONE ) { values.insert( x ); values.insert( x + 0.25 ); }
    for( double R : values )
    {
      auto pairs = admissiblePairs( W, R );
      H().step();
      std::map< std::pair<std::size_t, std::size_t>, double > got, e;
      for( auto&& p : pairs ) got[ { p.p, p.q } ] = p.w;
      for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = 0; j < n; j++ ) if( D[i][j] <= R ) e[ { i, j } ] = D[i][j];
      H().check( got == e && pairs.size() == e.size(), "pairs", cat( "wrong admissible pairs for threshold ", R, ": ", pairs.size(), " instead of ", e.size() ) );

      for( unsigned dimension = 0; dimension <= 2; dimension++ )
      {
        auto both   = buildDowkerSinkSourceComplexes<unsigned, double>( pairs, dimension );
        auto source = dowker( n, R, dimension, [&] ( std::size_t b, unsigned v ) { return D[b][v]; } );
        auto sink   = dowker( n, R, dimension, [&] ( std::size_t b, unsigned v ) { return D[v][b]; } );
        compare( both.first,  source, cat( "source complex for threshold ", R, " and dimension ", dimension ) );
        compare( both.second, sink,   cat( "sink complex for threshold ", R, " and dimension ", dimension ) );
        compare( buildDowkerSourceCompplex<Matrix, unsigned, double>( W, R, dimension ), source, cat( "direct source complex for threshold ", R, " and dimension ", dimension ) );

        if( dimension == 0 )
        {
          std::map<Mask, double> a, b;
          for( auto&& s : both.first )  a[ toMask( s ) ] = s.data();
          for( auto&& s : both.second ) b[ toMask( s ) ] = s.data();
          for( double t : values )
            if( t <= R )
              H().check( bettiAt( a, t ) == bettiAt( b, t ), "duality", cat( "homology of sink and source complex differ at ", t ) );
        }
      }
    }
    H().trace();
    H().sample();
  } );
}

static void matrices( std::size_t n, const std::vector<double>& alphabet, const std::vector<double>& diagonal )
{
  forAllVectors( n * n - n, unsigned( alphabet.size() ), [&] ( const std::vector<unsigned>& v )
  {
    if( !H().mine() ) return;
    forAllVectors( diagonal.size() > 1 ? n : 0, unsigned( diagonal.size() ), [&] ( const std::vector<unsigned>& g )
    {
      Matrix W( n, std::vector<double>( n, diagonal[0] ) );
      std::size_t k = 0;
      for( std::size_t i = 0; i < n; i++ )
        for( std::size_t j = 0; j < n; j++ )
          if( i != j ) W[i][j] = alphabet[ v[k++] ];
          else if( !g.empty() ) W[i][j] = diagonal[ g[i] ];
      run( W );
    } );
  } );
}

void explore()
{
  // Larger relations: directed paths, cycles, stars, complete and bipartite ones
  for( std::size_t n = 5; n <= ( H().thorough ? 8u : 7u ); n++ )
    for( unsigned kind = 0; kind < 9; kind++ )
    {
      if( !H().mine() ) continue;
      Matrix W( n, std::vector<double>( n, 0 ) );
      for( std::size_t i = 0; i < n; i++ )
        for( std::size_t j = 0; j < n; j++ )
        {
          if( i == j ) continue;
          bool edge = kind == 0 ? j == i + 1 : kind == 1 ? j == ( i + 1 ) % n : kind == 2 ? i == 0 : kind == 3 ? j == 0 : kind == 4 ? i < j
                    : kind == 5 ? ( i + j ) % 2 == 1 : kind == 6 ? ( i * 3 + j * 5 ) % 4 == 0 : kind == 7 ? j == ( i + 2 ) % n || j + 1 == i : i / 2 == j / 2 || j == 2 * i;
          if( edge ) W[i][j] = double( ( i * 7 + j * 3 ) % 4 + 1 );
        }
      run( W );
    }

  matrices( 1, { 0 }, { 0 } );
  matrices( 2, { 0, 1, 2, 5 }, { 0, 3 } );
  matrices( 3, { 0, 1, 3 }, { 0 } );
  matrices( 4, { 0, 2 }, { 0 } );
  if( H().thorough )
  {
    matrices( 3, { 0, 1, 2, 5 }, { 0 } );
    matrices( 3, { 0, 1 }, { 0, 2 } );
  }
}
