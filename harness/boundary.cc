// Boundary matrices: histories of column operations for every representation
// against bit matrices; matrices of complexes; dualization; text input.

#include "big.hh"

#include <aleph/topology/BoundaryMatrix.hh>
#include <aleph/topology/Conversions.hh>
#include <aleph/topology/representations/Heap.hh>
#include <aleph/topology/representations/List.hh>
#include <aleph/topology/representations/Set.hh>
#include <aleph/topology/representations/Vector.hh>

using namespace vf;
using namespace aleph::topology;

using S  = Simplex<double, unsigned>;
using K_ = SimplicialComplex<S>;

struct Bits
{
  std::vector<Mask> cols;
  std::vector<unsigned> dims;
  bool operator<( const Bits& o ) const { return std::tie( cols, dims ) < std::tie( o.cols, o.dims ); }
};

static std::string show( const Bits& b )
{
  std::string s = "[";
  for( std::size_t i = 0; i < b.cols.size(); i++ ) s += ( i ? " " : "" ) + ( b.cols[i] ? strMask( b.cols[i] ) : std::string( "-" ) ) + "/" + str( b.dims[i] );
  return s + "]";
}

template <class M> void compare( const M& m, const Bits& b, const char* name, bool dual = false )
{
  using Index = typename M::Index;
  H().check( std::size_t( m.getNumColumns() ) == b.cols.size(), "columns", cat( name, ": wrong number of columns" ) );
  unsigned top = 0;
  for( auto d : b.dims ) top = std::max( top, d );
  H().check( unsigned( m.getDimension() ) == top, "dimension", cat( name, ": wrong dimension of the matrix, expected ", top, ", got ", m.getDimension() ) );
  H().check( m.isDualized() == dual, "dualized", cat( name, ": wrong dualization flag" ) );
  for( std::size_t j = 0; j < b.cols.size(); j++ )
  {
    auto r = m.getMaximumIndex( Index( j ) );
    H().check( r.second == ( b.cols[j] != 0 ), "maximum", cat( name, ": wrong validity of maximum index of column ", j, " of ", show( b ) ) );
    if( b.cols[j] && r.second )
      H().check( unsigned( r.first ) == 31u - unsigned( __builtin_clz( b.cols[j] ) ), "maximum", cat( name, ": wrong maximum index of column ", j, " of ", show( b ), ": ", r.first ) );
    auto c = m.getColumn( Index( j ) );
    std::vector<unsigned> got( c.begin(), c.end() );
    std::sort( got.begin(), got.end() );
    H().check( got == verts( b.cols[j] ), "column", cat( name, ": wrong column ", j, ": expected ", verts( b.cols[j] ), ", got ", got ) );
    H().check( unsigned( m.getDimension( Index( j ) ) ) == b.dims[j], "dimension", cat( name, ": wrong dimension of column ", j, ": expected ", b.dims[j], ", got ", m.getDimension( Index( j ) ) ) );
  }
}

template <class M> void assign( M& m, std::size_t j, Mask c, bool reversed = false )
{
  auto v = verts( c );
  if( reversed ) std::reverse( v.begin(), v.end() );
  std::vector<typename M::Index> w( v.begin(), v.end() );
  m.setColumn( typename M::Index( j ), w.begin(), w.end() );
}

static unsigned naturalDim( Mask c ) { return c ? unsigned( dim( c ) ) : 0; }

template <class M> M make( const Bits& b )
{
  M m;
  m.setNumColumns( typename M::Index( b.cols.size() ) );
  for( std::size_t j = 0; j < b.cols.size(); j++ )
  {
    assign( m, j, b.cols[j] );
    m.setDimension( typename M::Index( j ), typename M::Index( b.dims[j] ) );
  }
  return m;
}

// Histories of column operations -------------------------------------------

struct Op { int kind; unsigned a, b; }; // 0: add a to b, 1: clear a, 2: set a := b, 3: dimension of a := b

static std::string show( const Op& o )
{
  switch( o.kind )
  {
  case 0:  return cat( "add ", o.a, "->", o.b );
  case 1:  return cat( "clear ", o.a );
  case 2:  return cat( "set ", o.a, ":=", strMask( o.b ) );
  default: return cat( "dim ", o.a, ":=", o.b );
  }
}

template <class M> void apply( M& m, const Op& o )
{
  using Index = typename M::Index;
  switch( o.kind )
  {
  case 0:  m.addColumns( Index( o.a ), Index( o.b ) ); break;
  case 1:  m.clearColumn( Index( o.a ) ); break;
  case 2:  assign( m, o.a, o.b, true ); break;
  default: m.setDimension( Index( o.a ), Index( o.b ) ); break;
  }
}

static void apply( Bits& m, const Op& o )
{
  switch( o.kind )
  {
  case 0:  m.cols[o.b] ^= m.cols[o.a]; break;
  case 1:  m.cols[o.a] = 0; break;
  case 2:  m.cols[o.a] = o.b; m.dims[o.a] = naturalDim( o.b ); break;
  default: m.dims[o.a] = o.b; break;
  }
}

template <class M> void histories( const char* name, unsigned n, unsigned depth, unsigned queries )
{
  std::vector<Op> ops;
  for( unsigned a = 0; a < n; a++ ) for( unsigned b = 0; b < n; b++ ) if( a != b ) ops.push_back( { 0, a, b } );
  ops.push_back( { 1, 0, 0 } );
  ops.push_back( { 2, 1, ( 1u << n ) - 1 } );
  ops.push_back( { 3, n - 1, 2 } );

  forAllVectors( n, 1u << n, [&] ( const std::vector<unsigned>& cols )
  {
    if( !H().mine() ) return;
    Bits init;
    for( auto c : cols ) { init.cols.push_back( c ); init.dims.push_back( naturalDim( c ) ); }
    forAllVectors( depth, unsigned( ops.size() ), [&] ( const std::vector<unsigned>& seq )
    {
      std::string text = cat( name, " ", show( init ), ":" );
      for( auto i : seq ) text += " " + show( ops[i] ) + ";";
      H().setCase( text );
      H().state();
      H().guarded( "history", [&]
      {
        Bits b = init;
        M m;
        m.setNumColumns( typename M::Index( n ) );
        for( unsigned j = 0; j < n; j++ ) assign( m, j, cols[j], j % 2 == 1 );
        for( std::size_t k = 0; k < seq.size(); k++ )
        {
          apply( m, ops[ seq[k] ] );
          apply( b, ops[ seq[k] ] );
          H().step();
          if( queries & 1 ) compare( m, b, name );
        }
        compare( m, b, name );
        // A matrix with this history equals the directly created one
        auto fresh = make<M>( b );
        H().check( m == fresh && !( m != fresh ), "equality", cat( name, ": matrix differs from the same matrix created directly" ) );
        Bits other = b;
        other.cols[0] ^= 1;
        H().check( m != make<M>( other ), "equality", cat( name, ": different matrices compare equal" ) );
        other = b;
        other.dims[0] += 1;
        H().check( m != make<M>( other ), "equality", cat( name, ": matrices with different dimensions compare equal" ) );
        H().trace();
        H().sample();
      } );
    } );
  } );
}

// Matrices of complexes ----------------------------------------------------

template <class R> void ofComplex( const Order& o, const char* name )
{
  using M = BoundaryMatrix<R>;
  auto K = toComplex<K_>( o );
  auto m = makeBoundaryMatrix<R>( K );
  H().step();
  auto c = boundaryColumns( o );
  Bits b, d;
  unsigned n = unsigned( o.size() );
  for( unsigned j = 0; j < n; j++ ) { b.cols.push_back( Mask( c[j] ) ); b.dims.push_back( unsigned( dim( o[j] ) ) ); }
  compare( m, b, name );

  // Truncated matrices keep all dimensions
  for( unsigned max = 1; max < n; max++ )
  {
    Bits t = b;
    for( unsigned j = max; j < n; j++ ) t.cols[j] = 0;
    compare( makeBoundaryMatrix<R>( K, max ), t, name );
    H().step();
  }

  // Anti-transpose
  unsigned top = n ? unsigned( maxDim( o ) ) : 0;
  d.cols.assign( n, 0 );
  d.dims.assign( n, 0 );
  for( unsigned j = 0; j < n; j++ )
  {
    d.dims[ n - 1 - j ] = top - b.dims[j];
    for( auto i : verts( b.cols[j] ) ) d.cols[ n - 1 - i ] |= Mask(1) << ( n - 1 - j );
  }
  auto dual = m.dualize();
  H().step();
  compare( dual, d, name, true );
  auto back = dual.dualize();
  H().step();
  compare( back, b, name, false );
  H().check( back == m, "dualize", cat( name, ": dualizing twice does not give the original matrix" ) );
  if( n ) H().check( dual != m, "dualize", cat( name, ": dual matrix equals the original" ) );
}

// Text ---------------------------------------------------------------------

template <class R> void text( const std::string& s, const Bits& b, const char* name, bool consistent )
{
  using M = BoundaryMatrix<R>;
  bool thrown = false;
  try
  {
    std::istringstream in( s );
    auto m = M::load( in );
    if( consistent ) compare( m, b, name );
  }
  catch( const std::exception& e )
  {
    thrown = true;
    if( consistent ) H().fail( "load", cat( name, ": valid text is rejected: ", e.what() ) );
  }
  H().step();
  if( !consistent )
    H().check( thrown, "load", cat( name, ": inconsistent text is accepted" ) );
}

static void texts( const Order& o )
{
  auto c = boundaryColumns( o );
  Bits b;
  std::vector<std::string> lines;
  for( std::size_t j = 0; j < o.size(); j++ )
  {
    b.cols.push_back( Mask( c[j] ) );
    b.dims.push_back( unsigned( dim( o[j] ) ) );
    std::string l = str( dim( o[j] ) );
    auto v = verts( Mask( c[j] ) );
    if( j % 2 ) std::reverse( v.begin(), v.end() );
    for( auto i : v ) l += " " + str( i );
    lines.push_back( l );
  }
  const std::vector<std::string> extras = { "", "   ", "# comment", "  # indented comment 1 2", "\t", "#1 2" };
  const std::vector<std::string> ends   = { "\n", "\r\n", " \n" };
  for( std::size_t pos = 0; pos <= lines.size(); pos++ )
    for( auto&& e : extras )
      for( auto&& nl : ends )
        for( int last = 0; last < 2; last++ )
        {
          std::string s;
          for( std::size_t j = 0; j <= lines.size(); j++ )
          {
            if( j == pos ) s += e + "\n";
            if( j < lines.size() ) s += ( j % 3 == 2 ? " " : "" ) + lines[j] + ( last && j + 1 == lines.size() && pos != lines.size() ? "" : nl );
          }
          H().setCase( "text " + s );
          H().state();
          H().guarded( "load", [&]
          {
            text< representations::Vector<unsigned> >( s, b, "Vector", true );
            text< representations::List<unsigned> >( s, b, "List", true );
            H().trace();
            H().sample();
          } );
        }
  // A wrong dimension has to be detected
  for( std::size_t j = 0; j < lines.size(); j++ )
  {
    std::string s;
    for( std::size_t k = 0; k < lines.size(); k++ )
      s += ( k == j ? str( b.dims[k] + 1 ) + lines[k].substr( 1 ) : lines[k] ) + "\n";
    H().setCase( "text " + s );
    H().state();
    H().guarded( "load", [&] { text< representations::Vector<unsigned> >( s, b, "Vector", false ); H().trace(); } );
  }
  // Files
  std::string name = H().scratch + "/m.txt";
  { std::ofstream out( name ); for( auto&& l : lines ) out << l << "\n"; }
  H().setCase( "file " + strOrder( o ) );
  H().state();
  H().guarded( "load", [&]
  {
    compare( BoundaryMatrix< representations::Vector<unsigned> >::load( name ), b, "file" );
    H().step();
    H().trace();
  } );
}

// Families of larger complexes and long histories --------------------------

using Columns = std::vector< std::set<unsigned> >;

template <class M> void compareBig( const M& m, const Columns& c, const std::vector<unsigned>& dims, const char* name, bool dual = false )
{
  using Index = typename M::Index;
  H().check( std::size_t( m.getNumColumns() ) == c.size() && m.isDualized() == dual, "columns", cat( name, ": wrong number of columns" ) );
  unsigned top = 0;
  for( auto d : dims ) top = std::max( top, d );
  H().check( unsigned( m.getDimension() ) == top, "dimension", cat( name, ": wrong dimension of the matrix" ) );
  for( std::size_t j = 0; j < c.size(); j++ )
  {
    auto r = m.getMaximumIndex( Index( j ) );
    H().check( r.second == !c[j].empty() && ( c[j].empty() || unsigned( r.first ) == *c[j].rbegin() ), "maximum", cat( name, ": wrong maximum index of column ", j ) );
    auto x = m.getColumn( Index( j ) );
    std::vector<unsigned> got( x.begin(), x.end() );
    std::sort( got.begin(), got.end() );
    H().check( got == std::vector<unsigned>( c[j].begin(), c[j].end() ), "column", cat( name, ": wrong column ", j ) );
    H().check( unsigned( m.getDimension( Index( j ) ) ) == dims[j], "dimension", cat( name, ": wrong dimension of column ", j ) );
  }
  H().step();
}

template <class R> void large( const Big& o, const char* name )
{
  using M     = BoundaryMatrix<R>;
  using Index = typename M::Index;
  auto m = makeBoundaryMatrix<R>( bigComplex<K_>( o ) );
  Columns c, d( o.size() );
  std::vector<unsigned> dims, duals( o.size() );
  for( auto&& x : bigColumns( o ) ) c.push_back( std::set<unsigned>( x.begin(), x.end() ) );
  unsigned n = unsigned( o.size() ), top = unsigned( maxDim( o ) );
  for( auto&& f : o ) dims.push_back( unsigned( dim( f ) ) );
  compareBig( m, c, dims, name );
  for( unsigned j = 0; j < n; j++ )
  {
    duals[ n - 1 - j ] = top - dims[j];
    for( auto i : c[j] ) d[ n - 1 - i ].insert( n - 1 - j );
  }
  auto dual = m.dualize();
  compareBig( dual, d, duals, name, true );
  H().check( dual.dualize() == m, "dualize", cat( name, ": dualizing twice does not give the original matrix" ) );

  // Text
  std::ostringstream s;
  for( unsigned j = 0; j < n; j++ ) { s << dims[j]; for( auto i : c[j] ) s << " " << i; s << "\n"; if( j % 9 == 4 ) s << "# comment\n\n"; }
  std::istringstream in( s.str() );
  auto loaded = M::load( in );
  compareBig( loaded, c, dims, name );
  H().check( loaded == m, "load", cat( name, ": loaded matrix differs" ) );

  // A long history of additions
  auto add = [] ( std::set<unsigned>& a, const std::set<unsigned>& b ) { for( auto x : b ) if( !a.insert( x ).second ) a.erase( x ); };
  for( unsigned k = 0; k < 3 * n; k++ )
  {
    unsigned a = ( k * 31 + 7 ) % n, b = ( k * 17 + n / 2 ) % n;
    if( a == b ) continue;
    m.addColumns( Index( a ), Index( b ) );
    add( c[b], c[a] );
    if( k % 11 == 10 )
    {
      auto r = m.getMaximumIndex( Index( b ) );
      H().check( r.second == !c[b].empty() && ( c[b].empty() || unsigned( r.first ) == *c[b].rbegin() ), "maximum", cat( name, ": wrong maximum index after additions" ) );
    }
    if( k % 41 == 40 ) { m.clearColumn( Index( a ) ); c[a].clear(); }
  }
  compareBig( m, c, dims, name );
}

void explore()
{
  bigComplexes( H().thorough ? 220 : 110, [&] ( const std::string& name, const Big& K )
  {
    for( unsigned kind = 0; kind < 3; kind++ )
    {
      if( !H().mine() ) continue;
      H().setCase( cat( name, ", order ", kind ) );
      if( H().skip() ) continue;
      H().state();
      H().guarded( "conversion", [&]
      {
        auto o = relabelled( ordered( K, kind ), kind );
        large< representations::Vector<unsigned> >( o, "Vector" );
        large< representations::List<unsigned> >( o, "List" );
        large< representations::Set<unsigned> >( o, "Set" );
        large< representations::Heap<unsigned> >( o, "Heap" );
        H().trace();
      } );
    }
  } );

  using namespace representations;
  unsigned depth = H().thorough ? 4 : 3;
  histories< BoundaryMatrix< Vector<unsigned> > >( "Vector", 3, depth - 1, 1 );
  histories< BoundaryMatrix< List<unsigned> > >  ( "List",   3, depth - 1, 1 );
  histories< BoundaryMatrix< Set<unsigned> > >   ( "Set",    3, depth - 1, 1 );
  histories< BoundaryMatrix< Vector<int> > >     ( "Vector<int>", 3, depth - 1, 1 );
  histories< BoundaryMatrix< Heap<unsigned> > >  ( "Heap (queried)", 3, depth, 1 );
  histories< BoundaryMatrix< Heap<unsigned> > >  ( "Heap", 3, depth, 0 );

  for( auto&& K : allComplexes( 3 ) )
    linearExtensions( K, false, [&] ( const Order& o )
    {
      if( !H().mine() ) return;
      H().setCase( "complex " + strOrder( o ) );
      H().state();
      H().guarded( "conversion", [&]
      {
        ofComplex< Vector<unsigned> >( o, "Vector" );
        ofComplex< List<unsigned> >( o, "List" );
        ofComplex< Set<unsigned> >( o, "Set" );
        ofComplex< Heap<unsigned> >( o, "Heap" );
        ofComplex< Vector<int> >( o, "Vector<int>" );
        H().trace();
        H().sample();
      } );
    } );
  for( auto&& K : allComplexes( 4 ) )
  {
    if( !H().mine() ) continue;
    for( int k = 0; k < 2; k++ )
    {
      Order o = K;
      if( k ) std::sort( o.begin(), o.end() );
      H().setCase( "complex " + strOrder( o ) );
      H().state();
      H().guarded( "conversion", [&]
      {
        ofComplex< Vector<unsigned> >( o, "Vector" );
        ofComplex< List<unsigned> >( o, "List" );
        ofComplex< Set<unsigned> >( o, "Set" );
        ofComplex< Heap<unsigned> >( o, "Heap" );
        H().trace();
      } );
    }
  }
  for( auto&& K : allComplexes( 3 ) )
    if( H().mine() )
      texts( K );
}
