// Assignment problems for all small cost matrices.

#include "pd.hh"

#include <aleph/persistenceDiagrams/distances/detail/Munkres.hh>

using namespace vf;

template <class T> void run( unsigned n, const std::vector<unsigned>& x, const std::vector<double>& values, const char* name )
{
  H().setCase( [&] { std::string s = cat( name, " ", n, "x", n, ":" ); for( auto i : x ) s += " " + str( values[i] ); return s; }() );
  H().state();
  H().guarded( "assignment", [&]
  {
    aleph::distances::detail::Matrix<T> C( n );
    for( unsigned i = 0; i < n; i++ ) for( unsigned j = 0; j < n; j++ ) C( i, j ) = T( values[ x[ i * n + j ] ] );
    std::vector<unsigned> p( n );
    for( unsigned i = 0; i < n; i++ ) p[i] = i;
    double best = std::numeric_limits<double>::infinity();
    if( n > 6 )
    {
      std::vector< std::vector<double> > c( n, std::vector<double>( n ) );
      for( unsigned i = 0; i < n; i++ ) for( unsigned j = 0; j < n; j++ ) c[i][j] = double( C( i, j ) );
      best = assignmentCosts( c );
    }
    else do
    {
      double s = 0;
      for( unsigned i = 0; i < n; i++ ) s += double( C( i, p[i] ) );
      best = std::min( best, s );
    }
    while( std::next_permutation( p.begin(), p.end() ) );

    aleph::distances::detail::Munkres<T> solver( C );
    auto M = solver();
    std::vector< std::pair<std::size_t, std::size_t> > matching;
    solver.matching( std::back_inserter( matching ) );
    std::vector<unsigned> rows( n, 0 ), cols( n, 0 );
    double s = 0;
    for( unsigned i = 0; i < n; i++ )
      for( unsigned j = 0; j < n; j++ )
        if( M( i, j ) == T() ) { ++rows[i]; ++cols[j]; s += double( C( i, j ) ); }
    H().step();
    bool perfect = true;
    for( unsigned i = 0; i < n; i++ ) perfect = perfect && rows[i] == 1 && cols[i] == 1;
    H().check( perfect, "perfect", "selected entries are not a permutation" );
    H().check( s == best, "optimal", cat( "costs should be ", best, ", got ", s ) );
    H().check( double( solver.cost( C ) ) == best, "cost", cat( "reported costs should be ", best, ", got ", solver.cost( C ) ) );
    std::set< std::pair<std::size_t, std::size_t> > pairs( matching.begin(), matching.end() );
    bool same = pairs.size() == n && matching.size() == n;
    for( auto&& q : pairs ) same = same && q.first < n && q.second < n && M( q.first, q.second ) == T();
    H().check( same, "matching", "reported matching differs from the selected entries" );
    H().trace();
    H().sample();
  } );
}

template <class T> void all( unsigned n, const std::vector<double>& values, const char* name )
{
  forAllVectors( n * n, unsigned( values.size() ), [&] ( const std::vector<unsigned>& x )
  {
    if( H().mine() ) run<T>( n, x, values, name );
  } );
}

void explore()
{
  // Families of larger matrices: entry (i,j) of n times n
  for( unsigned n = 5; n <= ( H().thorough ? 40 : 24 ); n++ )
    for( unsigned kind = 0; kind < 10; kind++ )
    {
      if( !H().mine() ) continue;
      std::vector<double> values;
      for( unsigned i = 0; i < n * n; i++ ) values.push_back( i );
      std::vector<unsigned> x;
      for( unsigned i = 0; i < n; i++ ) for( unsigned j = 0; j < n; j++ )
      {
        unsigned d = i < j ? j - i : i - j;
        unsigned e = kind == 0 ? ( i + 1 ) * ( j + 1 ) : kind == 1 ? d : kind == 2 ? n - 1 - d : kind == 3 ? ( i * 37 + j * 53 ) % 101
                   : kind == 4 ? ( i * j ) % n : kind == 5 ? 1 : kind == 6 ? ( i == j ) : kind == 7 ? ( i + j ) % n : kind == 8 ? ( i * i + 7 * j ) % 23 : i * n + j;
        x.push_back( std::min( e, n * n - 1 ) );
      }
      run<double>( n, x, values, "double" );
      run<int>( n, x, values, "int" );
    }
  for( unsigned n = 0; n <= 2; n++ ) all<double>( n, { 0, 1, 2, 5, 0.5, 1e308 }, "double" );
  all<double>( 3, { 0, 1, 2 }, "double" );
  all<double>( 3, { 3, 1, 7 }, "double" );
  // Costs of very small and very large magnitude
  for( int e : { -300, -40, -24, 40, 300 } )
    all<double>( 3, { std::ldexp( 1, e ), std::ldexp( 2, e ), std::ldexp( 3, e ) }, "double" );
  all<int>( 3, { 1, 2, 4 }, "int" );
  all<unsigned>( 3, { 0, 1, 3 }, "unsigned" );
  all<float>( 3, { 0.25, 1, 8 }, "float" );
  all<double>( 4, { 1, 3 }, "double" );
  all<int>( 4, { 0, 1 }, "int" );
  // A row of equal entries shifts all of the costs: fix the last row
  if( H().thorough )
  {
    all<double>( 3, { 0, 1, 2, 5 }, "double" );
    forAllVectors( 12, 3, [&] ( const std::vector<unsigned>& y )
    {
      if( !H().mine() ) return;
      auto x = y;
      for( unsigned i = 0; i < 4; i++ ) x.push_back( ( y[i] + i ) % 3 );
      run<double>( 4, x, { 0, 1, 4 }, "double" );
    } );
  }
  else
    // Cyclic 4x4 and 5x5 matrices and their row permutations
    forAllVectors( 5, 5, [&] ( const std::vector<unsigned>& y )
    {
      for( unsigned k = 1; k <= 4; k++ )
      {
        if( !H().mine() ) continue;
        std::vector<unsigned> x;
        for( unsigned i = 0; i < 5; i++ ) for( unsigned j = 0; j < 5; j++ ) x.push_back( ( y[ ( k * i + j ) % 5 ] + ( i * j ) % 3 ) % 5 );
        run<double>( 5, x, { 0, 1, 3, 4, 8 }, "double" );
      }
    } );
}
