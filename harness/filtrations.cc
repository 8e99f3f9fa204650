// Filtration orders and weight recalculation for all small complexes.

#include "big.hh"

#include <aleph/topology/filtrations/Data.hh>
#include <aleph/topology/filtrations/Degree.hh>
#include <aleph/topology/filtrations/LowerStar.hh>
#include <aleph/topology/filtrations/UpperStar.hh>

using namespace vf;
using namespace aleph;

using S  = topology::Simplex<double, unsigned>;
using K_ = topology::SimplicialComplex<S>;

using Weights = std::map<Mask, double>;

static void validFiltration( const K_& K, const Weights& w, const std::function<double( Mask )>& value, bool ascending, const char* what )
{
  Order o = toOrder( K );
  Weights now;
  for( auto&& s : K ) now[ toMask( s ) ] = s.data();
  H().check( now == w && o.size() == w.size(), "set", cat( what, ": sorting changed the simplices" ) );
  for( std::size_t i = 0; i < o.size(); i++ )
  {
    for( std::size_t j = 0; j < i; j++ )
      H().check( ( o[i] & o[j] ) != o[i], "faces", cat( what, ": a coface precedes its face in ", strOrder( o ) ) );
    if( i )
      H().check( ascending ? value( o[i-1] ) <= value( o[i] ) : value( o[i-1] ) >= value( o[i] ), "monotone", cat( what, ": values are not monotone in ", strOrder( o ) ) );
  }
}

template <class C> void strictOrder( const K_& K, const C& c, const char* what )
{
  std::vector<S> v( K.begin(), K.end() );
  for( auto&& a : v ) for( auto&& b : v )
    H().check( int( c( a, b ) ) + int( c( b, a ) ) + int( a == b ) == 1, "total-order", cat( what, ": not a strict total order" ) );
  for( auto&& a : v ) for( auto&& b : v ) if( c( a, b ) )
    for( auto&& d : v ) if( c( b, d ) )
      H().check( c( a, d ), "total-order", cat( what, ": not transitive" ) );
}

// Some initial orders of a complex; all of them if it is small
static std::vector<Order> initialOrders( const Order& K )
{
  std::vector<Order> r;
  Order o = K;
  std::sort( o.begin(), o.end() );
  if( o.size() <= 4 )
  {
    do r.push_back( o );
    while( std::next_permutation( o.begin(), o.end() ) );
    return r;
  }
  r.push_back( K );
  r.push_back( o );
  std::reverse( o.begin(), o.end() );
  r.push_back( o );
  std::rotate( o.begin(), o.begin() + o.size() / 2, o.end() );
  r.push_back( o );
  return r;
}

static void sorting( const Order& K0, unsigned base )
{
  auto orders = initialOrders( K0 );
  monotoneWeights( K0, base, [&] ( const std::map<Mask, unsigned>& m )
  {
    if( !H().mine() ) return;
    for( int descending = 0; descending < 2; descending++ )
    {
      Weights w;
      for( auto&& x : m ) w[ x.first ] = descending ? 1.0 - x.second : x.second - 1.0;
      Order result;
      for( std::size_t k = 0; k < orders.size(); k++ )
      {
        auto&& o = orders[k];
        auto at  = [&] ( Mask s ) { return w.at( s ); };
        H().setCase( cat( "data ", descending ? "descending " : "ascending ", strWeighted( o, at ) ) );
        H().state();
        H().guarded( "data", [&]
        {
          K_ K = toComplex<K_>( o, at );
          if( descending ) K.sort( topology::filtrations::Data< S, std::greater<double> >() );
          else             K.sort( topology::filtrations::Data<S>() );
          H().step();
          validFiltration( K, w, at, !descending, "data filtration" );
          if( k == 0 )
          {
            result = toOrder( K );
            if( descending ) strictOrder( K, topology::filtrations::Data< S, std::greater<double> >(), "data filtration" );
            else             strictOrder( K, topology::filtrations::Data<S>(), "data filtration" );
          }
          else
            H().check( result == toOrder( K ), "deterministic", "result depends on the initial order" );
          H().trace();
          H().sample();
        } );
      }
    }
  } );
}

static void stars( const Order& K0, unsigned n, unsigned base )
{
  auto orders = initialOrders( K0 );
  forAllVectors( n, base, [&] ( const std::vector<unsigned>& f )
  {
    if( !H().mine() ) return;
    std::vector<double> values;
    for( auto x : f ) values.push_back( double( x ) - 1.5 );
    Order lower, upper;
    for( std::size_t k = 0; k < orders.size(); k++ )
    {
      auto&& o = orders[k];
      H().setCase( cat( "star ", strOrder( o ), " values ", values ) );
      H().state();
      H().guarded( "star", [&]
      {
        K_ K = toComplex<K_>( o, [] ( Mask s ) { return double( s ); } );
        Weights w = toWeights( K );
        auto maxV = [&] ( Mask s ) { double r = -1e9; for( auto v : verts( s ) ) r = std::max( r, values[v] ); return r; };
        auto minV = [&] ( Mask s ) { double r =  1e9; for( auto v : verts( s ) ) r = std::min( r, values[v] ); return r; };

        topology::filtrations::LowerStar<S> ls( values.begin(), values.end() );
        topology::filtrations::UpperStar<S> us( values.begin(), values.end() );
        for( auto&& s : K )
        {
          H().check( ls.maximumValue( s ) == maxV( toMask( s ) ), "star-value", "wrong maximum" );
          H().check( us.minimumValue( s ) == minV( toMask( s ) ), "star-value", "wrong minimum" );
        }

        K.sort( std::ref( ls ) );
        H().step();
        validFiltration( K, w, maxV, true, "lower star" );
        if( k == 0 ) { lower = toOrder( K ); strictOrder( K, ls, "lower star" ); }
        else H().check( lower == toOrder( K ), "deterministic", "lower star: result depends on the initial order" );

        K.sort( us );
        H().step();
        validFiltration( K, w, minV, false, "upper star" );
        if( k == 0 ) { upper = toOrder( K ); strictOrder( K, us, "upper star" ); }
        else H().check( upper == toOrder( K ), "deterministic", "upper star: result depends on the initial order" );
        H().trace();
        H().sample();
      } );
    }
  } );
}

static void recalculation( const Order& K0, unsigned n )
{
  auto orders = initialOrders( K0 );
  if( orders.size() > 6 ) orders.resize( 6 );

  // Arbitrary weights for vertices and edges; the weights of higher simplices
  // are never used
  Order low;
  for( Mask s : K0 ) if( dim( s ) <= 1 ) low.push_back( s );
  forAllVectors( low.size(), low.size() <= 6 ? 3 : 2, [&] ( const std::vector<unsigned>& f )
  {
    if( !H().mine() ) return;
    Weights w;
    for( Mask s : K0 ) w[s] = dim( s ) == 2 ? 5 : -5;
    for( std::size_t i = 0; i < low.size(); i++ ) w[ low[i] ] = double( f[i] ) * 2 - 1;
    auto&& o = orders[ ( f.empty() ? 0 : f[0] + 2 * f.back() ) % orders.size() ];
    H().setCase( "recalculate " + strWeighted( o, [&] ( Mask s ) { return w.at( s ); } ) );
    H().state();
    H().guarded( "recalculate", [&]
    {
      for( int useMax = 0; useMax < 2; useMax++ ) for( int skip = 0; skip < 2; skip++ )
      {
        K_ K = toComplex<K_>( o, [&] ( Mask s ) { return w.at( s ); } );
        K.recalculateWeights( useMax != 0, skip != 0 );
        H().step();
        Weights want;
        for( Mask s : K0 )
        {
          if( dim( s ) == 0 || ( dim( s ) == 1 && skip ) ) { want[s] = w[s]; continue; }
          double x = useMax ? -1e9 : 1e9;
          for( Mask t = s; t; t = ( t - 1 ) & s )
            if( dim( t ) == ( skip ? 1 : 0 ) ) x = useMax ? std::max( x, w[t] ) : std::min( x, w[t] );
          want[s] = x;
        }
        H().check( toOrder( K ) == o, "recalculate-order", "recalculation changed the order" );
        auto got = toWeights( K );
        H().check( got == want, "recalculate", cat( useMax ? "maximum" : "minimum", skip ? " (edges kept)" : "", ": expected ",
                   strWeighted( o, [&] ( Mask s ) { return want.at( s ); } ), ", got ", strWeighted( o, [&] ( Mask s ) { return got.at( s ); } ) ) );
      }
      H().trace();
      H().sample();
    } );
  } );

  // Vertex values
  forAllVectors( n, 3, [&] ( const std::vector<unsigned>& f )
  {
    if( !H().mine() ) return;
    std::vector<double> values;
    for( auto x : f ) values.push_back( double( x ) - 2 );
    H().setCase( cat( "vertex values ", values, " for ", strOrder( K0 ) ) );
    H().state();
    H().guarded( "recalculate", [&]
    {
      for( auto&& o : orders )
      {
        K_ K = toComplex<K_>( o, [] ( Mask s ) { return double( s ) - 3; } );
        K.recalculateWeights( values.begin(), values.end() );
        H().step();
        H().check( toOrder( K ) == o, "recalculate-order", "recalculation changed the order" );
        for( auto&& s : K )
        {
          double x = -1e9;
          for( auto v : verts( toMask( s ) ) ) x = std::max( x, values[v] );
          H().check( s.data() == x, "recalculate-values", cat( "simplex ", strMask( toMask( s ) ), ": expected ", x, ", got ", s.data() ) );
        }
      }
      H().trace();
    } );
  } );
}

static void degrees( const Order& K0 )
{
  if( !H().mine() ) return;
  H().setCase( "degrees " + strOrder( K0 ) );
  H().state();
  H().guarded( "degree", [&]
  {
    for( auto&& o : initialOrders( K0 ) )
    {
      K_ K = toComplex<K_>( o );
      std::vector<unsigned> got, want;
      topology::filtrations::degrees( K, std::back_inserter( got ) );
      H().step();
      for( Mask v : K0 ) if( dim( v ) == 0 )
      {
        unsigned d = 0;
        for( Mask s : K0 ) if( s != v && ( s & v ) ) ++d;
        want.push_back( d );
      }
      H().check( got == want, "degree", cat( "expected ", want, ", got ", got ) );
      int top = maxDim( K0 );
      for( Mask s = 1; s < 32; s++ )
      {
        if( K0.empty() ) break;
        unsigned w = 0;
        for( Mask t : K0 ) if( dim( t ) == top && ( t & s ) == s ) ++w;
        auto d = topology::filtrations::n_degree( K, toSimplex<S>( s ) );
        H().step();
        H().check( d == w, "n-degree", cat( "degree of ", strMask( s ), ": expected ", w, ", got ", d ) );
      }
    }
    H().trace();
  } );
}

// Families of larger complexes
static void large( const std::string& name, const Big& o )
{
  H().setCase( name );
  if( H().skip() ) return;
  H().state();
  H().guarded( "data", [&]
  {
    std::vector<double> values;
    unsigned n = verticesOf( o );
    for( unsigned i = 0; i < n; i++ ) values.push_back( double( ( i * 29 + 5 ) % 13 ) - 6 );
    auto maxV = [&] ( const Face& f ) { double r = -1e9; for( auto v : f ) r = std::max( r, values[v] ); return r; };
    auto minV = [&] ( const Face& f ) { double r =  1e9; for( auto v : f ) r = std::min( r, values[v] ); return r; };
    auto valid = [&] ( const K_& K, const std::function<double( const Face& )>& value, bool ascending, bool data, const char* what )
    {
      H().step();
      std::set<Face> seen;
      double last = ascending ? -1e9 : 1e9;
      for( auto&& s : K )
      {
        auto f = toFace( s );
        for( auto&& g : facetsOf( f ) ) H().check( seen.count( g ) != 0, "faces", cat( what, ": a coface precedes its face" ) );
        seen.insert( f );
        H().check( ascending ? last <= value( f ) : last >= value( f ), "monotone", cat( what, ": values are not monotone" ) );
        last = value( f );
        if( data ) H().check( s.data() == value( f ), "set", cat( what, ": weight changed" ) );
      }
      H().check( seen == std::set<Face>( o.begin(), o.end() ) && K.size() == o.size(), "set", cat( what, ": sorting changed the simplices" ) );
    };
    topology::filtrations::LowerStar<S> ls( values.begin(), values.end() );
    topology::filtrations::UpperStar<S> us( values.begin(), values.end() );
    std::vector<Big> results( 4 );
    for( unsigned k = 0; k < 3; k++ )
    {
      Big p = o;
      if( k == 1 ) std::reverse( p.begin(), p.end() );
      if( k == 2 ) std::rotate( p.begin(), p.begin() + long( p.size() / 3 ), p.end() );
      auto A = bigComplex<K_>( p, [&] ( const Face& f, std::size_t ) { return maxV( f ); } );
      auto B = bigComplex<K_>( p, [&] ( const Face& f, std::size_t ) { return minV( f ); } );
      auto C = A, D = A;
      A.sort( topology::filtrations::Data<S>() );
      B.sort( topology::filtrations::Data< S, std::greater<double> >() );
      C.sort( std::ref( ls ) );
      D.sort( us );
      valid( A, maxV, true,  true,  "data filtration" );
      valid( B, minV, false, true,  "descending data filtration" );
      valid( C, maxV, true,  false, "lower star" );
      valid( D, minV, false, false, "upper star" );
      unsigned i = 0;
      for( auto L : { &A, &B, &C, &D } )
      {
        if( k == 0 ) results[i] = toBig( *L );
        else H().check( results[i] == toBig( *L ), "deterministic", "result depends on the initial order" );
        i++;
      }
      auto E = bigComplex<K_>( p, [] ( const Face&, std::size_t j ) { return double( j ) - 7; } );
      E.recalculateWeights( values.begin(), values.end() );
      H().check( toBig( E ) == p, "recalculate-order", "recalculation changed the order" );
      for( auto&& s : E ) H().check( s.data() == maxV( toFace( s ) ), "recalculate-values", "wrong weight" );
      std::vector<unsigned> got, want;
      topology::filtrations::degrees( E, std::back_inserter( got ) );
      std::map<unsigned, unsigned> degree;
      for( auto&& f : o ) for( auto v : f ) degree[v] += f.size() > 1;
      for( auto&& d : degree ) want.push_back( d.second );
      H().step( 2 );
      H().check( got == want, "degree", cat( "expected ", want, ", got ", got ) );
    }
    H().trace();
  } );
}

void explore()
{
  bigComplexes( H().thorough ? 220 : 110, [&] ( const std::string& name, const Big& K )
  {
    if( H().mine() ) large( name, K );
    if( H().mine() ) large( name + ", other labels", relabelled( ordered( K, 3 ), 2 ) );
  } );

  for( auto&& K : allComplexes( 3 ) )
  {
    sorting( K, H().thorough ? 4 : 3 );
    stars( K, 3, 4 );
    recalculation( K, 3 );
    degrees( K );
  }
  for( auto&& K : complexesUpToIsomorphism( 4 ) )
  {
    sorting( K, H().thorough ? 3 : 2 );
    if( H().thorough ) stars( K, 4, 4 );
    recalculation( K, 4 );
    degrees( K );
  }
  for( auto&& K : allComplexes( 4 ) )
  {
    stars( K, 4, 3 );
    degrees( K );
  }
  for( auto&& K : complexesUpToIsomorphism( 5 ) )
  {
    stars( K, 5, H().thorough ? 3 : 2 );
    degrees( K );
  }
}
