// Means of all small sets of small diagrams. The random source of the mean
// calculation is replaced by an enumerated one.

#include "pd.hh"

#include <random>

namespace vf { static unsigned seed = 0; }

namespace std
{
  struct vf_random_device
  {
    using result_type = unsigned;
    vf_random_device() = default;
    template <class T> explicit vf_random_device( const T& ) {}
    unsigned operator()() { return vf::seed; }
    double entropy() const { return 0; }
    static constexpr unsigned min() { return 0; }
    static constexpr unsigned max() { return ~0u; }
  };
}

#define random_device vf_random_device
#include <aleph/persistenceDiagrams/Mean.hh>
#undef random_device

using namespace vf;

// Squared distance: all matchings
static double squared( const Pairs& A, const Pairs& B )
{
  double best = INF;
  allMatchings( A, B, [&] ( const std::vector<double>& costs )
  {
    double s = 0;
    for( auto c : costs ) s += c * c;
    best = std::min( best, s );
  } );
  return best;
}

// All partners (index in B, or -1 for the diagonal) of the points of A in
// optimal matchings
static std::vector<std::vector<int>> optimal( const Pairs& A, const Pairs& B )
{
  double best = squared( A, B );
  std::vector<std::vector<int>> result;
  std::vector<int> partner;
  std::vector<char> used( B.size(), 0 );
  std::function<void( std::size_t, double )> rec = [&] ( std::size_t i, double cost )
  {
    if( i == A.size() )
    {
      for( std::size_t j = 0; j < B.size(); j++ ) if( !used[j] ) cost += std::pow( toDiagonal( B[j] ), 2 );
      if( cost <= best + 1e-7 ) result.push_back( partner );
      return;
    }
    partner.push_back( -1 );
    rec( i + 1, cost + std::pow( toDiagonal( A[i] ), 2 ) );
    partner.pop_back();
    for( std::size_t j = 0; j < B.size(); j++ )
      if( !used[j] )
      {
        used[j] = 1;
        partner.push_back( int( j ) );
        rec( i + 1, cost + std::pow( chebyshev( A[i], B[j] ), 2 ) );
        partner.pop_back();
        used[j] = 0;
      }
  };
  rec( 0, 0 );
  return result;
}

// Checks whether there are optimal matchings with all diagrams such that
// every point is the average of its partners
static bool stationary( const Pairs& M, const std::vector<Pairs>& all )
{
  std::vector<std::vector<std::vector<int>>> matchings;
  for( auto&& B : all ) matchings.push_back( optimal( M, B ) );
  Pairs sum( M.size(), Pair( 0, 0 ) );
  std::function<bool( std::size_t )> rec = [&] ( std::size_t k )
  {
    if( k == all.size() )
    {
      for( std::size_t i = 0; i < M.size(); i++ )
        if( !close( sum[i].first / all.size(), M[i].first, 1e-6 ) || !close( sum[i].second / all.size(), M[i].second, 1e-6 ) ) return false;
      return true;
    }
    auto copy = sum;
    for( auto&& m : matchings[k] )
    {
      for( std::size_t i = 0; i < M.size(); i++ )
      {
        double h = ( M[i].first + M[i].second ) / 2;
        sum[i].first  += m[i] < 0 ? h : all[k][ m[i] ].first;
        sum[i].second += m[i] < 0 ? h : all[k][ m[i] ].second;
      }
      if( rec( k + 1 ) ) return true;
      sum = copy;
    }
    return false;
  };
  return rec( 0 );
}

static Pairs offDiagonal( Pairs p )
{
  p.erase( std::remove_if( p.begin(), p.end(), [] ( const Pair& x ) { return x.first == x.second; } ), p.end() );
  std::sort( p.begin(), p.end() );
  return p;
}

template <class T> void run( const std::vector<Pairs>& all, std::size_t dimension, const char* name )
{
  std::string s;
  for( auto&& p : all ) s += show( p ) + " ";
  // Some seeds that make each of the diagrams the initial one
  for( unsigned k = 0; k < 16; k++ )
  {
    seed = 1 + k * 0x11111111u;
    H().setCase( cat( name, " dimension=", dimension, " seed=", k, " ", s ) );
    H().state();
    H().guarded( "mean", [&]
    {
      std::vector<aleph::PersistenceDiagram<T>> diagrams;
      for( auto&& p : all ) diagrams.push_back( toDiagram<T>( p, dimension ) );
      auto M = aleph::mean( diagrams.begin(), diagrams.end() );
      H().step();
      auto m = toPairs( M );
      H().check( M.dimension() == dimension, "dimension", cat( "mean should have dimension ", dimension, ", got ", M.dimension() ) );
      for( auto&& x : m ) H().check( x.first != x.second && std::isfinite( x.first ) && std::isfinite( x.second ), "diagonal", "mean should not contain diagonal points" );
      bool equal = true;
      for( auto&& p : all ) equal = equal && offDiagonal( p ) == offDiagonal( all[0] );
      if( equal )
      {
        std::sort( m.begin(), m.end() );
        auto e = offDiagonal( all[0] );
        bool ok = m.size() == e.size();
        for( std::size_t i = 0; ok && i < m.size(); i++ ) ok = close( m[i].first, e[i].first ) && close( m[i].second, e[i].second );
        H().check( ok, "copies", cat( "mean of copies should be the diagram, got ", show( m ) ) );
      }
      H().check( stationary( m, all ), "stationary", cat( "points should be the average of their partners, got ", show( m ) ) );
      H().trace();
      H().sample();
    } );
  }
}

// Copies of a larger diagram
static void copies( const std::string& family, const Pairs& p, std::size_t n )
{
  H().setCase( cat( n, " copies of ", family ) );
  H().state();
  seed = unsigned( n ) * 7 + unsigned( p.size() );
  H().guarded( "mean", [&]
  {
    std::vector<aleph::PersistenceDiagram<double>> diagrams( n, toDiagram<double>( p, n ) );
    auto M = aleph::mean( diagrams.begin(), diagrams.end() );
    H().step();
    auto m = toPairs( M );
    std::sort( m.begin(), m.end() );
    auto e = offDiagonal( p );
    bool ok = m.size() == e.size() && M.dimension() == n;
    for( std::size_t i = 0; ok && i < m.size(); i++ ) ok = close( m[i].first, e[i].first ) && close( m[i].second, e[i].second );
    H().check( ok, "copies", cat( "mean of copies should be the diagram, got ", show( m ) ) );
    H().trace();
  } );
}

void explore()
{
  bigDiagrams( H().thorough ? 20 : 12, [&] ( const std::string& name, const Pairs& p )
  {
    for( std::size_t n = 1; n <= 4; n++ ) if( H().mine() ) copies( name, p, n );
  } );
  auto large = bigDiagrams( H().thorough ? 5 : 4 );
  for( std::size_t i = 0; i < large.size(); i++ )
    for( std::size_t j = 0; j < large.size(); j++ )
      if( large[i].second.size() >= 3 && large[j].second.size() >= 3 && ( i % 9 == 8 ) == ( j % 9 == 8 ) && H().mine() )
        run<double>( { large[i].second, large[j].second }, 0, "double" );
  auto all = [&] ( const Pairs& alphabet, std::size_t points, std::size_t lower, std::size_t upper, bool higher )
  {
    auto D = allDiagrams( alphabet, points );
    for( std::size_t n = lower; n <= upper; n++ )
      forAllVectors( n, unsigned( D.size() ), [&] ( const std::vector<unsigned>& x )
      {
        if( !H().mine() ) return;
        std::vector<Pairs> diagrams;
        for( auto i : x ) diagrams.push_back( D[i] );
        run<double>( diagrams, 0, "double" );
        if( higher ) run<double>( diagrams, 2, "double" );
      } );
  };
  all( { { 0, 4 }, { 1, 3 }, { 2, 10 }, { 3, 3 } }, 2, 1, 2, true );
  all( { { 0, 4 }, { 1, 3 }, { 2, 10 }, { 3, 3 } }, 2, 3, 3, false );
  all( { { 0, 4 }, { 1, 3 }, { 2, 10 }, { 5, 9 } }, 3, 2, 2, false );
  all( { { 0, 4 }, { 0.5, 7 }, { 2, 10 }, { -1, 3 } }, 1, 4, H().thorough ? 5 : 4, false );
  all( { { 1, 0 }, { 5, 2 }, { 9, 1 } }, 2, 2, 3, false );
  if( H().thorough ) all( { { 0, 4 }, { 0.5, 7 }, { 2, 10 }, { -1, 3 }, { 6, 9 }, { 0, 5 } }, 2, 3, 3, false );
}
