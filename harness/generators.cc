// Random generators: all sequences of outcomes of the underlying draws.

#include "points.hh"

#include <map>
#include <random>
#include <set>

// Scripted source of randomness: every distribution returns the scripted
// fractions of its range, one after the other, and repeats the last one.
static std::vector<double> script;
static std::size_t         drawn = 0;
static bool                separate = false; // every distribution has a position of its own

namespace std
{

struct vf_random_device { unsigned operator()() { return 0; } };

template <class T = double> class vf_uniform_real_distribution
{
public:
  vf_uniform_real_distribution( T a = T( 0 ), T b = T( 1 ) ) : _a( a ), _b( b ) {}
  template <class R> T operator()( R& )
  {
    ++drawn;
    std::size_t i = separate ? _position++ : drawn - 1;
    double f = script[ std::min( i, script.size() - 1 ) ];
    // The second half of a separate script is for the rejection threshold
    if( separate && _b < T( 1 ) ) f = i < thresholds.size() ? thresholds[i] : 0;
    return _a + T( f ) * ( _b - _a );
  }
  static std::vector<double> thresholds;
private:
  T _a, _b;
  std::size_t _position = 0;
};

template <class T> std::vector<double> vf_uniform_real_distribution<T>::thresholds;

}

#define random_device vf_random_device
#define uniform_real_distribution vf_uniform_real_distribution

#include <aleph/topology/RandomGraph.hh>
#include <aleph/geometry/SphereSampling.hh>
#include <aleph/geometry/TorusSampling.hh>

#undef random_device
#undef uniform_real_distribution

using namespace vf;

namespace ag = aleph::geometry;
namespace at = aleph::topology;

using Edges = std::map<std::pair<unsigned, unsigned>, unsigned>;

// Splits a complex into its edges; the vertices must be exactly 0..n-1.
template <class K> static Edges edges( const K& complex, unsigned n, const char* key )
{
  Edges e;
  std::set<unsigned> vertices;
  bool ok = true;
  double last = 0;
  for( auto&& s : complex )
  {
    std::vector<unsigned> v( s.begin(), s.end() );
    std::sort( v.begin(), v.end() );
    if( v.size() == 1 ) ok = ok && vertices.insert( v[0] ).second && s.data() == 0;
    else if( v.size() == 2 && vertices.count( v[0] ) && vertices.count( v[1] ) ) ok = ok && e.insert( { { v[0], v[1] }, unsigned( s.data() ) } ).second;
    else ok = false;
    ok   = ok && s.data() >= last;
    last = s.data();
  }
  ok = ok && vertices.size() == n && ( n == 0 || *vertices.rbegin() == n - 1 );
  H().step();
  H().check( ok, key, cat( "not a graph on ", n, " vertices in filtration order" ) );
  return e;
}

static void unweighted()
{
  for( unsigned n = 0; n <= ( H().thorough ? 5 : 4 ); n++ )
    for( double p : { 0.0, 0.25, 0.5, 0.75, 1.0 } )
      for( unsigned variant = 0; variant < 3; variant++ )
      {
        if( !H().mine() ) continue;
        H().setCase( cat( "unweighted graphs n=", n, " p=", p, " variant ", variant ) );
        if( H().skip() ) continue;
        H().sample();
        unsigned m = n * ( n ? n - 1 : 0 ) / 2;
        std::set< std::set< std::pair<unsigned, unsigned> > > seen;
        std::size_t scripts = 0;
        for( unsigned mask = 0; mask < ( 1u << m ); mask++ )
        {
          // Without success (p=0) or failure (p=1), the draws are limited
          if( p == 0.0 && mask != 0 ) continue;
          if( p == 1.0 && mask != ( 1u << m ) - 1 ) continue;
          H().state();
          scripts++;
          drawn    = 0;
          separate = false;
          script.clear();
          for( unsigned i = 0; i < m; i++ ) script.push_back( mask >> i & 1 ? ( variant == 2 ? 0.999 * p : variant ? p / 2 : 0.0 ) : ( variant ? ( 1 + p ) / 2 : p ) );
          script.push_back( 1 );
          auto e = edges( at::generateErdosRenyiGraph( n, p ), n, "graph-shape" );
          if( p == 0.0 || p == 1.0 ) H().check( e.size() == ( p == 0.0 ? 0 : m ), "graph-edges", cat( "there are ", e.size(), " edges" ) );
          if( drawn == 0 && m ) { H().note( "other source of randomness" ); scripts = 0; seen.clear(); break; }
          std::set< std::pair<unsigned, unsigned> > g;
          for( auto&& x : e ) g.insert( x.first );
          H().check( g.size() == std::size_t( __builtin_popcount( mask ) ), "graph-edges", cat( "draws ", script, " give ", g.size(), " edges" ) );
          seen.insert( g );
        }
        H().check( seen.size() == scripts, "graph-distribution", cat( scripts, " outcomes give ", seen.size(), " graphs" ) );
      }
}

// Larger graphs: every single edge, every single missing edge, periodic draws
static void large()
{
  for( unsigned n = 5; n <= ( H().thorough ? 16u : 10u ); n++ )
    for( unsigned kind = 0; kind < 2; kind++ )
    {
      if( !H().mine() ) continue;
      H().setCase( cat( kind ? "weighted" : "unweighted", " graphs n=", n ) );
      if( H().skip() ) continue;
      unsigned m = n * ( n - 1 ) / 2;
      std::vector< std::vector<unsigned> > all;
      for( unsigned k = 0; k < 3 * m; k++ )
      {
        std::vector<unsigned> w( m, k / m == 1 ? 1 : 0 );
        if( k / m < 2 ) w[ k % m ] = kind ? 3 : k / m ? 0 : 1;
        else for( unsigned i = 0; i < m; i++ ) w[i] = i % ( k % m + 2 ) == 0;
        all.push_back( w );
      }
      all.push_back( std::vector<unsigned>( m, 0 ) );
      std::sort( all.begin(), all.end() );
      all.erase( std::unique( all.begin(), all.end() ), all.end() );
      std::set<Edges> seen;
      for( auto&& w : all )
      {
        H().state();
        drawn    = 0;
        separate = false;
        script.clear();
        for( auto x : w )
        {
          for( unsigned i = 0; i < x; i++ ) script.push_back( 0.25 );
          if( kind || !x ) script.push_back( 0.75 );
        }
        script.push_back( 1 );
        auto e = kind ? edges( at::generateWeightedRandomGraph( n, 0.5 ), n, "weighted-graph-shape" ) : edges( at::generateErdosRenyiGraph( n, 0.5 ), n, "graph-shape" );
        if( drawn == 0 ) { H().note( "other source of randomness" ); break; }
        std::multiset<unsigned> a, b;
        for( auto&& x : e ) a.insert( kind ? x.second : 1 );
        for( auto x : w ) if( x ) b.insert( x );
        H().check( a == b, kind ? "weighted-graph-weights" : "graph-edges", cat( "draws ", w, " give other edges" ) );
        seen.insert( e );
      }
      if( drawn ) H().check( seen.size() == all.size(), "graph-distribution", cat( all.size(), " outcomes give ", seen.size(), " graphs" ) );
    }
}

static void weighted()
{
  for( unsigned n = 0; n <= ( H().thorough ? 4 : 3 ); n++ )
    for( double p : { 0.25, 0.5, 0.75 } )
      for( unsigned variant = 0; variant < 3; variant++ )
      {
        if( !H().mine() ) continue;
        H().setCase( cat( "weighted graphs n=", n, " p=", p, " variant ", variant ) );
        if( H().skip() ) continue;
        H().sample();
        unsigned m = n * ( n ? n - 1 : 0 ) / 2;
        std::set<Edges> seen;
        std::size_t scripts = 0;
        forAllVectors( m, 4, [&] ( const std::vector<unsigned>& w )
        {
          H().state();
          scripts++;
          drawn    = 0;
          separate = false;
          script.clear();
          for( auto x : w )
          {
            for( unsigned i = 0; i < x; i++ ) script.push_back( variant == 2 ? 0.999 * p : variant ? p / 2 : 0.0 );
            script.push_back( variant ? ( 1 + p ) / 2 : p );
          }
          script.push_back( 1 );
          auto e = edges( at::generateWeightedRandomGraph( n, p ), n, "weighted-graph-shape" );
          std::multiset<unsigned> a, b;
          for( auto&& x : e ) a.insert( x.second );
          for( auto x : w ) if( x ) b.insert( x );
          H().check( a == b, "weighted-graph-weights", cat( "trials ", w, " give other weights" ) );
          seen.insert( e );
        } );
        H().check( seen.size() == scripts, "weighted-graph-distribution", cat( scripts, " outcomes give ", seen.size(), " graphs" ) );
        drawn  = 0;
        script = { 0.0, 1.0 };
        auto e = edges( at::generateWeightedRandomGraph( n, 0.0 ), n, "weighted-graph-shape" );
        H().check( e.empty(), "weighted-graph-empty", "probability zero gives an edge" );
      }
}

// Uniformity is decided by counting over a complete lattice of draws.
template <class T> static void sphere( const char* what, double eps )
{
  const unsigned N = 24, bins = 6;
  if( H().mine() )
  {
    H().setCase( cat( what, " sphere uniformity" ) );
    if( !H().skip() )
    {
      H().sample();
      std::map< std::pair<int, int>, unsigned > cells;
      bool ok = true;
      for( unsigned i = 0; i < N; i++ )
        for( unsigned j = 0; j < N; j++ )
        {
          H().state();
          H().step();
          drawn    = 0;
          separate = false;
          script   = { ( i + 0.5 ) / N, ( j + 0.5 ) / N };
          auto a = ag::sphereSampling<T>( 1 );
          if( a.size() != 1 ) { ok = false; continue; }
          double theta = a[0].first, z = std::cos( a[0].second );
          ok = ok && theta >= 0 && theta <= 2 * M_PI + eps && a[0].second >= 0 && a[0].second <= M_PI + eps;
          cells[ { int( theta / ( 2 * M_PI ) * bins ), int( ( z + 1 ) / 2 * bins ) } ]++;
        }
      ok = ok && cells.size() == bins * bins;
      for( auto&& c : cells ) ok = ok && c.second == N * N / bins / bins;
      H().check( ok, "sphere-uniform", "points per area are not uniform" );
      for( unsigned n : { 0, 1, 5 } )
      {
        drawn  = 0;
        script = { 0.5 };
        H().check( ag::sphereSampling<T>( n ).size() == n, "sphere-size", cat( "wrong number of samples for ", n ) );
      }
    }
  }
  for( double r : { 0.5, 1.0, 3.0 } )
    for( double o : { 0.0, 2.0 } )
    {
      if( !H().mine() ) continue;
      H().setCase( cat( what, " sphere radius ", r, " offset ", o ) );
      if( H().skip() ) continue;
      H().sample();
      std::vector< std::pair<T, T> > a;
      for( unsigned i = 0; i <= N; i++ ) for( unsigned j = 0; j <= N; j++ ) a.push_back( { T( 2 * M_PI * i / N ), T( M_PI * j / N ) } );
      auto pc = o == 0 ? ag::makeSphere<T>( a, T( r ) ) : ag::makeSphere<T>( a, T( r ), T( o ), T( -o ), T( 2 * o ) );
      H().check( pc.size() == a.size() && pc.dimension() == 3, "sphere-points", "wrong number of points" );
      for( std::size_t i = 0; i < a.size() && i < pc.size(); i++ )
      {
        H().state();
        auto p = pc[i];
        double x = p[0] - o, y = p[1] + o, z = p[2] - 2 * o;
        H().check( close( x, r * std::sin( a[i].second ) * std::cos( a[i].first ), eps ) && close( y, r * std::sin( a[i].second ) * std::sin( a[i].first ), eps ) && close( z, r * std::cos( a[i].second ), eps ), "sphere-coordinates", cat( "angles ", a[i].first, " ", a[i].second, " give ", x, " ", y, " ", z ) );
      }
    }
}

template <class T> static void torus( const char* what, double eps )
{
  const unsigned N = 16;
  using D = std::vf_uniform_real_distribution<T>;
  for( double R : { 1.0, 2.0, 4.0 } )
    for( double r : { 0.25, 1.0 } )
    {
      if( !H().mine() ) continue;
      H().setCase( cat( what, " torus R=", R, " r=", r ) );
      if( H().skip() ) continue;
      H().sample();

      // The angle is accepted with a probability proportional to the area
      // element at that angle.
      for( unsigned i = 0; i < N; i++ )
        for( unsigned j = 0; j < N; j++ )
        {
          H().state();
          H().step();
          double x = ( i + 0.5 ) / N, y = ( j + 0.5 ) / N;
          double accept = ( 1 + r / R * std::cos( 2 * M_PI * x ) ) / 2;
          if( std::fabs( accept - y ) < 1e-3 ) continue;
          drawn         = 0;
          separate      = true;
          script        = { x, 0.0 };
          D::thresholds = { y };
          auto a = ag::torusRejectionSampling<T>( T( R ), T( r ), 1 );
          H().check( a.size() == 1 && close( a[0].first, y < accept ? 2 * M_PI * x : 0, eps ), "torus-area", cat( "draws ", x, " ", y, ": angle ", a.empty() ? -1 : a[0].first ) );
        }

      for( unsigned n : { 0, 1, 5 } )
      {
        script        = { 0.25, 0.5, 0.75, 0.0 };
        D::thresholds = { 0.9, 0.1, 0.9, 0.1 };
        auto a = ag::torusRejectionSampling<T>( T( R ), T( r ), n );
        H().check( a.size() == n, "torus-size", cat( "wrong number of samples for ", n ) );
      }

      std::vector< std::pair<T, T> > a;
      for( unsigned i = 0; i <= N; i++ ) for( unsigned j = 0; j <= N; j++ ) a.push_back( { T( 2 * M_PI * i / N ), T( 2 * M_PI * j / N ) } );
      auto pc = ag::makeTorus<T>( a, T( R ), T( r ) );
      H().check( pc.size() == a.size() && pc.dimension() == 3, "torus-points", "wrong number of points" );
      for( std::size_t i = 0; i < a.size() && i < pc.size(); i++ )
      {
        auto p = pc[i];
        double d = R + r * std::cos( a[i].first );
        H().check( close( p[0], d * std::cos( a[i].second ), eps ) && close( p[1], d * std::sin( a[i].second ), eps ) && close( p[2], r * std::sin( a[i].first ), eps ), "torus-coordinates", cat( "angles ", a[i].first, " ", a[i].second ) );
      }
    }
}

void explore()
{
  unweighted();
  weighted();
  large();
  sphere<double>( "double", 1e-9 );
  sphere<float>( "float", 1e-5 );
  torus<double>( "double", 1e-9 );
  torus<float>( "float", 1e-5 );
}
