// Persistence diagrams of weighted complexes and of 1D functions, Betti
// numbers and Euler characteristics, against the reference pairing.

#include "big.hh"

#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/persistentHomology/EulerCharacteristic.hh>
#include <aleph/persistentHomology/algorithms/Standard.hh>
#include <aleph/persistentHomology/algorithms/Twist.hh>
#include <aleph/topology/io/Function.hh>
#include <aleph/topology/representations/Vector.hh>

using namespace vf;
using namespace aleph;

using Points = std::vector< std::pair<double, double> >; // sorted
using ByDim  = std::map<std::size_t, Points>;

static const double INFTY = std::numeric_limits<double>::infinity();

template <class D> Points points( const D& d )
{
  Points p;
  for( auto&& x : d ) p.push_back( { double( x.x() ), x.isUnpaired() ? INFTY : double( x.y() ) } );
  std::sort( p.begin(), p.end() );
  return p;
}

template <class V> bool collect( const V& diagrams, ByDim& r )
{
  bool ok = true;
  for( std::size_t i = 0; i < diagrams.size(); i++ )
  {
    if( i && diagrams[i-1].dimension() >= diagrams[i].dimension() ) ok = false;
    auto p = points( diagrams[i] );
    if( !p.empty() ) r[ diagrams[i].dimension() ] = p;
  }
  return ok;
}

static std::string show( const ByDim& m )
{
  std::string s;
  for( auto&& x : m ) s += cat( " dim ", x.first, ": ", x.second );
  return s.empty() ? " none" : s;
}

template <class T, class E> void checkDiagrams( const std::vector<E>& o, const std::function<T( const E& )>& w )
{
  using S  = topology::Simplex<T, unsigned>;
  using K_ = topology::SimplicialComplex<S>;
  using namespace persistentHomology::algorithms;

  auto r   = pairingOf( o );
  int top  = maxDim( o );
  ByDim full, reduced, finite;
  for( auto&& p : r.pairs )
  {
    std::pair<double,double> x{ double( w( o[p.first] ) ), double( w( o[p.second] ) ) };
    full[ dim( o[p.first] ) ].push_back( x );
    reduced[ dim( o[p.first] ) ].push_back( x );
    finite[ dim( o[p.first] ) ].push_back( x );
  }
  for( auto i : r.essential )
  {
    full[ dim( o[i] ) ].push_back( { double( w( o[i] ) ), INFTY } );
    if( dim( o[i] ) != top ) reduced[ dim( o[i] ) ].push_back( { double( w( o[i] ) ), INFTY } );
  }
  for( auto m : { &full, &reduced, &finite } )
    for( auto&& x : *m ) std::sort( x.second.begin(), x.second.end() );

  auto K = toComplex<K_>( o, w );

  auto compare = [&] ( const char* what, const std::vector< PersistenceDiagram<T> >& got, const ByDim& want )
  {
    H().step();
    ByDim g;
    bool ordered = collect( got, g );
    H().check( ordered, "diagram-dimensions", cat( what, ": dimensions are not strictly increasing" ) );
    H().check( g == want, "diagram", cat( what, ": expected", show( want ), ", got", show( g ) ) );
  };

  compare( "default",         calculatePersistenceDiagrams( K ), reduced );
  compare( "primal",          calculatePersistenceDiagrams( K, false ), reduced );
  auto all = calculatePersistenceDiagrams( K, true, true );
  compare( "dual/all",        all, full );
  compare( "primal/all",      calculatePersistenceDiagrams( K, false, true ), full );
  compare( "Standard/dual",   calculatePersistenceDiagrams<Standard>( K, true ), reduced );
  compare( "Standard/primal", calculatePersistenceDiagrams<Standard>( K, false, true ), full );
  compare( "Twist/primal",    calculatePersistenceDiagrams<Twist>( K, false, true ), full );

  // Betti numbers
  if( top >= 0 )
  {
    auto b = betti( o, top );
    std::vector<unsigned> got( b.size(), 0 );
    for( auto&& D : all )
      if( D.dimension() < got.size() ) got[ D.dimension() ] += unsigned( D.betti() );
    H().check( got == b, "betti", cat( "Betti numbers: expected ", b, ", got ", got ) );
  }

  // Euler characteristics
  long chi = 0;
  for( auto&& m : o ) chi += dim( m ) % 2 ? -1 : 1;
  H().step( 3 );
  auto c1 = eulerCharacteristic( K );
  auto c2 = eulerCharacteristic( all.begin(), all.end() );
  H().check( c1 == chi, "euler-complex",  cat( "Euler characteristic of complex: expected ", chi, ", got ", c1 ) );
  H().check( c2 == chi, "euler-diagrams", cat( "Euler characteristic from diagrams: expected ", chi, ", got ", c2 ) );

  // Some of the diagrams, in any order
  for( unsigned m = 1; m + 1 < ( 1u << all.size() ); m++ )
  {
    std::vector< PersistenceDiagram<T> > some;
    long e = 0;
    for( std::size_t i = 0; i < all.size(); i++ )
      if( m >> i & 1 )
      {
        some.push_back( all[i] );
        e += ( all[i].dimension() % 2 ? -1 : 1 ) * long( all[i].betti() );
      }
    if( m % 2 ) std::reverse( some.begin(), some.end() );
    auto c = eulerCharacteristic( some.begin(), some.end() );
    H().check( c == e, "euler-diagrams", cat( "Euler characteristic from some of the diagrams: expected ", e, ", got ", c ) );
  }

  double pchi = 0;
  for( auto&& x : finite )
    for( auto&& p : x.second )
      pchi += ( x.first % 2 ? -1 : 1 ) * ( p.second - p.first );
  for( auto&& D : all ) D.removeUnpaired();
  auto c3 = persistentEulerCharacteristic( all.begin(), all.end() );
  H().check( close( c3, pchi ), "euler-persistent", cat( "persistent Euler characteristic: expected ", pchi, ", got ", c3 ) );
  std::reverse( all.begin(), all.end() );
  auto c4 = persistentEulerCharacteristic( all.begin(), all.end() );
  H().check( close( c4, pchi ), "euler-persistent", cat( "persistent Euler characteristic (reversed): expected ", pchi, ", got ", c4 ) );
}

template <class T> void weighted( const Order& K, const char* type, const std::vector<T>& values, bool descending )
{
  monotoneWeights( K, unsigned( values.size() ), [&] ( const std::map<Mask, unsigned>& m )
  {
    if( !H().mine() )
      return;
    std::function<T( const Mask& )> w = [&] ( Mask x ) { return values[ m.at( x ) ]; };
    Order o = K;
    std::stable_sort( o.begin(), o.end(), [&] ( Mask a, Mask b )
    {
      return m.at( a ) != m.at( b ) ? m.at( a ) < m.at( b ) : byDimension( a, b );
    } );
    H().setCase( cat( type, descending ? " superlevel " : " sublevel ", strWeighted( o, w ) ) );
    H().state();
    H().guarded( "diagram", [&] { checkDiagrams<T>( o, w ); H().trace(); H().sample(); } );
  } );
}

// 1D functions -------------------------------------------------------------

static void functions( const std::vector<unsigned>& v )
{
  std::vector<double> f;
  for( auto x : v ) f.push_back( double( x ) - 1 );
  H().setCase( cat( "function ", f ) );
  H().state();
  H().guarded( "function", [&]
  {
    // Reference: path complex, sublevel sets
    unsigned n = unsigned( f.size() );
    std::map<Face, double> w;
    Big o;
    for( unsigned i = 0; i < n; i++ )      { Face m = { i }; o.push_back( m ); w[m] = f[i]; }
    for( unsigned i = 0; i + 1 < n; i++ )  { Face m = { i, i + 1 }; o.push_back( m ); w[m] = std::max( f[i], f[i+1] ); }
    std::stable_sort( o.begin(), o.end(), [&] ( const Face& a, const Face& b ) { return w[a] != w[b] ? w[a] < w[b] : byFaceDimension( a, b ); } );
    auto r = pairingOf( o );
    Points want, essential;
    for( auto&& p : r.pairs ) want.push_back( { w[ o[p.first] ], w[ o[p.second] ] } );
    for( auto i : r.essential ) essential.push_back( { w[ o[i] ], INFTY } );
    std::sort( want.begin(), want.end() );

    std::string name = H().scratch + "/f.txt";
    { std::ofstream out( name ); out.precision( 17 ); for( auto x : f ) out << x << "\n"; }
    topology::BoundaryMatrix< topology::representations::Vector<unsigned> > M;
    std::vector<double> values;
    topology::io::loadFunction( name, M, values );
    H().step( 2 );

    // The values describe the simplices in filtration order
    std::vector<double> wantValues;
    for( auto&& m : o ) wantValues.push_back( w[m] );
    H().check( values == wantValues, "function-values", cat( "expected ", wantValues, ", got ", values ) );

    for( int d = 0; d < 2; d++ )
    {
      auto D = calculatePersistenceDiagram( d ? M.dualize() : M, values );
      H().step();
      Points paired, unpaired;
      for( auto&& p : points( D ) ) ( std::isinf( p.second ) ? unpaired : paired ).push_back( p );
      H().check( paired == want, "function-diagram", cat( "paired points: expected ", want, ", got ", paired ) );
      if( n >= 2 )
        H().check( unpaired == essential, "function-essential", cat( "unpaired points: expected ", essential, ", got ", unpaired ) );
      H().check( D.dimension() == 0, "function-dimension", "wrong dimension" );
    }
    H().trace();
    H().sample();
  } );
}

// Weights that do not decrease along an order: 0 constant, 1 one value per
// simplex, 2 few values, 3 few values that descend
template <class T> T weightAt( std::size_t i, std::size_t n, unsigned kind )
{
  if( kind == 0 ) return T( 7 );
  if( kind == 1 ) return T( i ) - T( 3 );
  if( kind == 2 ) return T( 8 * i / n ) * T( 2 );
  return T( 100 ) - T( 5 * i / n );
}

template <class T> void checkBig( const std::string& name, const Big& o, unsigned kind )
{
  H().setCase( name );
  if( H().skip() ) return;
  H().state();
  std::map<Face, T> m;
  for( std::size_t i = 0; i < o.size(); i++ ) m[ o[i] ] = weightAt<T>( i, o.size(), kind );
  std::function<T( const Face& )> w = [&] ( const Face& f ) { return m.at( f ); };
  H().guarded( "diagram", [&] { checkDiagrams<T>( o, w ); H().trace(); } );
}

void explore()
{
  // Families of larger complexes and functions
  bigComplexes( H().thorough ? 250 : 130, [&] ( const std::string& name, const Big& K )
  {
    for( unsigned kind = 0; kind < 4; kind++ )
      if( H().mine() )
      {
        auto o = relabelled( ordered( K, kind + 1 ), kind );
        if( kind == 2 ) checkBig<float>( cat( "float ", name, ", order ", kind ), o, kind );
        else checkBig<double>( cat( name, ", order ", kind ), o, kind );
      }
  } );
  for( unsigned n = 7; n <= 140; n++ )
    for( unsigned base : { 2u, 5u, 101u } )
      if( H().mine() )
      {
        std::vector<unsigned> v;
        for( unsigned i = 0; i < n; i++ ) v.push_back( ( i * 37 + i * i * 11 + n ) % base );
        functions( v );
      }

  for( auto&& K : complexesUpToIsomorphism( 4 ) )
  {
    std::size_t big = K.size() > 10;
    // The large complexes are spread over the shards by weight assignment
    std::vector<double> up = { -1.5, 0, 2 }, down = { 2, 0.25, -1 };
    weighted<double>( K, "double", up, false );
    weighted<double>( K, "double", big && !H().thorough ? std::vector<double>{ 2, -1 } : down, true );
    weighted<int>( K, "int", big ? std::vector<int>{ 1, 3 } : std::vector<int>{ -2, 1, 3 }, false );
    if( H().thorough || K.size() <= 7 ) weighted<float>( K, "float", { -1.f, 0.f, 1.f, 2.f }, false );
  }
  for( auto&& K : allComplexes( 4 ) )
      weighted<double>( K, "double", { 0, 1 }, false );

  for( auto&& K : complexesUpToIsomorphism( 5 ) )
    if( H().mine() )
    {
      // One weight per dimension, and constant weights
      Order o = K;
      std::function<double( const Mask& )> w = [] ( Mask m ) { return double( dim( m ) ); };
      H().setCase( "double by dimension " + strWeighted( o, w ) );
      H().state();
      H().guarded( "diagram", [&] { checkDiagrams<double>( o, w ); H().trace(); } );
    }

  for( unsigned n = 1; n <= ( H().thorough ? 8u : 6u ); n++ )
    forAllVectors( n, n <= 5 ? 4 : 3, [&] ( const std::vector<unsigned>& v )
    {
      if( H().mine() ) functions( v );
    } );
}
