// Simplices as vertex sets: all vertex sequences up to a length, all pairs
// and triples of simplices.

#include "bridge.hh"

using namespace vf;
using namespace aleph;

template <class F> bool throws( F f )
{
  try { f(); } catch( const std::exception& ) { return true; }
  return false;
}

template <class V> struct Alphabet { std::vector<V> letters; const char* name; };

template <class D, class V> void sequences( const Alphabet<V>& A, unsigned maxLength )
{
  using S = topology::Simplex<D, V>;
  unsigned n = unsigned( A.letters.size() );
  std::vector<S> canonical( Mask(1) << n );
  for( Mask m = 0; m < ( Mask(1) << n ); m++ )
  {
    std::vector<V> v;
    for( auto i : verts( m ) ) v.push_back( A.letters[i] );
    canonical[m] = S( v.begin(), v.end(), D( 1 ) );
  }

  for( unsigned len = 0; len <= maxLength; len++ )
    forAllVectors( len, n, [&] ( const std::vector<unsigned>& seq )
    {
      if( !H().mine() ) return;
      H().setCase( cat( A.name, " sequence ", seq ) );
      H().state();
      H().guarded( "simplex", [&]
      {
        Mask m = 0;
        std::vector<V> v;
        for( auto i : seq ) { m |= Mask(1) << i; v.push_back( A.letters[i] ); }
        std::set<V> want( v.begin(), v.end() );

        std::vector<S> all = { S( v.begin(), v.end() ), S( v.begin(), v.end(), D( 3 ) ) };
        { std::set<V> u( v.begin(), v.end() ); all.push_back( S( u.begin(), u.end(), D( 2 ) ) ); }
        if( len == 1 ) { all.push_back( S( v[0] ) ); all.push_back( S( v[0], D( 3 ) ) ); all.push_back( S( { v[0] } ) ); }
        if( len == 2 ) { all.push_back( S( { v[0], v[1] } ) ); all.push_back( S( { v[0], v[1] }, D( 3 ) ) ); }
        if( len == 3 ) { all.push_back( S( { v[0], v[1], v[2] } ) ); all.push_back( S( { v[0], v[1], v[2] }, D( 3 ) ) ); }
        if( len == 4 ) { all.push_back( S( { v[0], v[1], v[2], v[3] }, D( 3 ) ) ); }
        if( len == 0 ) all.push_back( S() );
        all.push_back( S( canonical[m] ) );
        all.push_back( S( canonical[m], D( 7 ) ) );
        H().check( all.back().data() == D( 7 ), "data", "data is not assigned when copying vertices" );
        H().check( all[0].data() == D(), "data", "default data is not used" );
        H().check( all[1].data() == D( 3 ), "data", "data is not assigned" );
        H().step( all.size() );

        for( auto&& s : all )
        {
          // Vertex access
          std::vector<V> it( s.begin(), s.end() ), rit( s.rbegin(), s.rend() ), idx;
          for( std::size_t i = 0; i < s.size(); i++ ) idx.push_back( s[i] );
          H().check( it.size() == want.size() && std::set<V>( it.begin(), it.end() ) == want, "vertices", cat( "expected the vertices ", want, ", got ", it ) );
          std::reverse( rit.begin(), rit.end() );
          H().check( it == rit, "vertices", "reverse iteration is not the reverse of the iteration" );
          H().check( it == idx, "vertices", "indexed access differs from iteration" );
          H().check( throws( [&] { (void) s[ s.size() ]; } ), "vertices", "index out of range is not rejected" );
          H().check( s.size() == want.size(), "size", "wrong size" );
          H().check( s.empty() == want.empty(), "size", "wrong emptiness" );
          H().check( bool( s ) == !want.empty(), "size", "wrong conversion to bool" );
          if( want.empty() )
            H().check( throws( [&] { (void) s.dimension(); } ), "dimension", "dimension of the empty simplex is not rejected" );
          else
            H().check( s.dimension() + 1 == want.size(), "dimension", "wrong dimension" );
          for( auto l : A.letters )
            H().check( s.contains( l ) == ( want.count( l ) > 0 ), "contains", cat( "wrong membership of ", l ) );

          // Boundary
          std::vector<S> b( s.begin_boundary(), s.end_boundary() );
          std::set< std::vector<V> > got, wantB;
          for( auto&& f : b )
          {
            std::vector<V> x( f.begin(), f.end() );
            std::sort( x.begin(), x.end() );
            got.insert( x );
          }
          if( want.size() >= 2 )
            for( auto x : want ) { auto w = want; w.erase( x ); wantB.insert( std::vector<V>( w.begin(), w.end() ) ); }
          H().check( b.size() == wantB.size() && got == wantB, "boundary", cat( "wrong boundary: ", got ) );

          // Equality, order and hash only depend on the vertices
          for( auto&& t : all )
          {
            H().check( s == t && !( s != t ), "equality", "equal vertex sets compare unequal" );
            H().check( !( s < t ), "order", "equal vertex sets are ordered" );
            H().check( std::hash<S>()( s ) == std::hash<S>()( t ), "hash", "equal simplices have different hashes" );
            H().check( hash_value( s ) == hash_value( t ), "hash", "equal simplices have different hashes" );
          }
          S c = s;
          c.setData( D( 9 ) );
          H().check( c.data() == D( 9 ) && c == s, "data", "changing the data changes the simplex" );
          c.setData();
          H().check( c.data() == D(), "data", "data is not reset" );
        }
        H().trace();
        H().sample();
      } );
    } );

  // Order axioms
  Mask N = Mask(1) << n;
  for( Mask a = 0; a < N; a++ )
    for( Mask b = 0; b < N; b++ )
    {
      if( !H().mine() ) continue;
      H().setCase( cat( A.name, " pair ", strMask( a ), " ", strMask( b ) ) );
      H().state();
      H().guarded( "simplex-order", [&]
      {
        auto&& s = canonical[a];
        auto&& t = canonical[b];
        bool lt = s < t, gt = t < s, eq = s == t;
        H().step( 3 );
        H().check( int( lt ) + int( gt ) + int( eq ) == 1, "order-total", "order is not total and antisymmetric" );
        H().check( eq == ( a == b ), "equality", "equality differs from equality of vertex sets" );
        H().check( ( s != t ) == ( a != b ), "equality", "inequality differs from inequality of vertex sets" );
        if( a != b && ( a & b ) == a )
          H().check( lt, "order-faces", "a face does not precede its coface" );
        for( Mask c = 0; c < N; c++ )
          if( lt && t < canonical[c] )
            H().check( s < canonical[c], "order-transitive", cat( "order is not transitive with ", strMask( c ) ) );
        H().trace();
        H().sample();
      } );
    }
}

// Larger simplices, with repeated vertices and in different orders
template <class D, class V> void large( unsigned limit, unsigned stride, const char* name )
{
  using S = topology::Simplex<D, V>;
  std::vector<S> previous;
  for( unsigned n = 5; n <= limit; n++ )
    for( unsigned kind = 0; kind < 4; kind++ )
    {
      std::vector<V> v;
      for( unsigned i = 0; i < n; i++ ) v.push_back( V( stride * ( kind == 0 ? i : kind == 1 ? n - 1 - i : ( i * 37 + 11 ) % n ) ) );
      if( kind == 3 ) for( unsigned i = 0; i < n; i += 2 ) v.push_back( v[i] );
      H().setCase( cat( name, " ", n, " vertices, order ", kind ) );
      H().state();
      H().guarded( "simplex", [&]
      {
        std::set<V> want( v.begin(), v.end() );
        S s( v.begin(), v.end(), D( 2 ) ), t( want.begin(), want.end() );
        H().step();
        H().check( s == t && !( s < t ) && !( t < s ) && std::hash<S>()( s ) == std::hash<S>()( t ), "equality", "equal vertex sets compare unequal" );
        std::vector<V> it( s.begin(), s.end() ), rit( s.rbegin(), s.rend() );
        std::reverse( rit.begin(), rit.end() );
        H().check( it.size() == want.size() && std::set<V>( it.begin(), it.end() ) == want && it == rit, "vertices", "vertices are wrong" );
        H().check( s.size() == want.size() && s.dimension() + 1 == want.size() && s.data() == D( 2 ), "size", "wrong size" );
        for( unsigned i = 0; i < ( n + 1 ) * stride; i++ )
          H().check( s.contains( V( i ) ) == ( want.count( V( i ) ) > 0 ), "contains", cat( "wrong membership of ", i ) );
        std::set< std::set<V> > faces, expected;
        std::size_t k = 0;
        for( auto f = s.begin_boundary(); f != s.end_boundary(); ++f, ++k )
        {
          S face = *f;
          faces.insert( std::set<V>( face.begin(), face.end() ) );
          H().check( face < s && !( s < face ) && face != s, "order-faces", "a face does not precede its coface" );
        }
        if( want.size() > 1 ) for( auto x : want ) { auto w = want; w.erase( x ); expected.insert( w ); }
        H().check( k == expected.size() && faces == expected, "boundary", "wrong boundary" );
        // A chain of faces
        for( auto&& p : previous )
          H().check( kind != 0 || ( p < s && !( s < p ) && p != s ), "order-faces", "a face does not precede its coface" );
        if( kind == 0 ) previous.push_back( s );
        H().trace();
      } );
    }
}

void explore()
{
  if( H().mine() ) large<double, unsigned short>( 80, 3, "short" );
  if( H().mine() ) large<float, unsigned>( 140, 1, "unsigned" );
  if( H().mine() ) large<short, unsigned char>( 120, 2, "char" );
  sequences<double, unsigned short>( { { 0, 1, 2, 3 }, "short 0123" }, H().thorough ? 7 : 5 );
  sequences<double, unsigned short>( { { 9, 10, 255, 256, 65535 }, "short large" }, 4 );
  sequences<float, unsigned>( { { 0, 5, 65536, 4294967295u }, "unsigned" }, 4 );
  sequences<int, int>( { { -2, -1, 0, 3 }, "int" }, 4 );
  sequences<short, unsigned char>( { { 0, 1, 127, 128, 255 }, "char" }, 4 );
}
