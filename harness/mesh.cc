// Half-edge meshes under all insertion histories of faces.

#include "ref.hh"

#include <aleph/topology/Mesh.hh>

using namespace vf;

using M_   = aleph::topology::Mesh<double, double>;
using Face = std::vector<unsigned>;

static Face canonical( Face f ) { std::rotate( f.begin(), std::min_element( f.begin(), f.end() ), f.end() ); return f; }

template <class T> static std::vector<T> sorted( std::vector<T> v ) { std::sort( v.begin(), v.end() ); return v; }

// Link of a vertex as a chain of oriented edges, or nothing if the faces at
// this vertex do not form a disk or half-disk.
static bool linkOf( const std::vector<Face>& faces, unsigned v, std::vector<unsigned>& link, bool& closed )
{
  std::map<unsigned, std::vector<unsigned> > chain; // head of a piece to the whole piece
  std::map<unsigned, std::vector<unsigned> > pieces;
  std::set<unsigned> ends;
  for( auto&& f : faces )
  {
    auto it = std::find( f.begin(), f.end(), v );
    if( it == f.end() ) continue;
    Face g( f );
    std::rotate( g.begin(), g.begin() + ( it - f.begin() ), g.end() );
    if( pieces.count( g[1] ) || ends.count( g.back() ) ) return false;
    pieces[ g[1] ] = std::vector<unsigned>( g.begin() + 1, g.end() );
    ends.insert( g.back() );
  }
  if( pieces.empty() ) { link.clear(); closed = false; return true; }
  unsigned start = pieces.begin()->first;
  closed = true;
  for( auto&& p : pieces ) if( !ends.count( p.first ) ) { start = p.first; closed = false; }
  // Only the first and the last vertex of a piece are adjacent to v
  link.clear();
  unsigned x = start;
  std::size_t used = 0;
  while( pieces.count( x ) )
  {
    link.push_back( x );
    x = pieces[x].back();
    if( ++used > pieces.size() ) return false;
    if( x == start ) break;
  }
  if( x != start ) link.push_back( x );
  return used == pieces.size();
}

static bool surface( const std::vector<Face>& faces, unsigned n )
{
  std::set< std::pair<unsigned, unsigned> > directed;
  for( auto&& f : faces )
    for( std::size_t i = 0; i < f.size(); i++ )
      if( !directed.insert( { f[i], f[ ( i + 1 ) % f.size() ] } ).second ) return false;
  for( unsigned v = 0; v < n; v++ )
  {
    std::vector<unsigned> l;
    bool c;
    if( !linkOf( faces, v, l, c ) ) return false;
  }
  return true;
}

static void compare( const M_& M, const std::vector<Face>& faces, unsigned n, const std::vector<unsigned>& ids, const std::vector<double>& values, bool isolated )
{
  H().step();
  std::set<unsigned> used;
  for( auto&& f : faces ) used.insert( f.begin(), f.end() );
  auto id = [&] ( unsigned v ) { return ids[v]; };
  std::vector<unsigned> vs;
  for( unsigned v = 0; v < n; v++ ) if( isolated || used.count( v ) ) vs.push_back( v );

  {
    auto got = M.vertices();
    std::vector<unsigned> e, g( got.begin(), got.end() );
    for( auto v : vs ) e.push_back( id( v ) );
    H().check( sorted( g ) == sorted( e ) && M.numVertices() == e.size(), "vertices", "wrong vertices" );
  }
  {
    std::vector<Face> e, g;
    for( auto&& f : faces ) { Face x; for( auto v : f ) x.push_back( id( v ) ); e.push_back( canonical( x ) ); }
    for( auto&& f : M.faces() ) g.push_back( canonical( Face( f.begin(), f.end() ) ) );
    H().check( sorted( g ) == sorted( e ), "faces", cat( "faces should be ", str( sorted( e ) ), ", got ", str( sorted( g ) ) ) );
    H().check( M.numFaces() == e.size(), "faces", cat( "number of faces should be ", e.size(), ", got ", M.numFaces() ) );
  }
  {
    std::vector<unsigned> p( n );
    for( unsigned v = 0; v < n; v++ ) p[v] = v;
    for( auto&& f : faces ) for( auto v : f ) { unsigned a = p[v], b = p[ f[0] ]; for( auto& x : p ) if( x == a ) x = b; }
    std::set<unsigned> c;
    for( auto v : vs ) c.insert( p[v] );
    H().check( M.numConnectedComponents() == c.size(), "components", cat( "number of components should be ", c.size(), ", got ", M.numConnectedComponents() ) );
  }
  std::set< std::pair<unsigned, unsigned> > edges;
  for( auto&& f : faces )
    for( std::size_t i = 0; i < f.size(); i++ )
    {
      unsigned a = f[i], b = f[ ( i + 1 ) % f.size() ];
      edges.insert( { a, b } );
      edges.insert( { b, a } );
    }
  for( auto v : vs )
  {
    H().check( M.data( id( v ) ) == values[v], "data", cat( "data of ", id( v ), " is wrong" ) );
    for( auto u : vs )
      if( u != v )
        H().check( M.hasEdge( id( u ), id( v ) ) == ( edges.count( { u, v } ) != 0 ), "edges", cat( "edge ", id( u ), "-", id( v ), " is reported wrongly" ) );

    std::vector<unsigned> l, e, lower, higher;
    bool closed = false;
    linkOf( faces, v, l, closed );
    for( auto x : l ) { e.push_back( id( x ) ); if( values[x] < values[v] ) lower.push_back( id( x ) ); if( values[x] > values[v] ) higher.push_back( id( x ) ); }
    auto link = M.link( id( v ) );
    auto lo = M.getLowerNeighbours( id( v ) ), hi = M.getHigherNeighbours( id( v ) );
    std::vector<unsigned> g( link.begin(), link.end() );
    auto start = std::find( g.begin(), g.end(), e.empty() ? 0u : e[0] );
    if( start != g.end() ) std::rotate( g.begin(), start, g.end() );
    H().check( g == e, "link", cat( "link of ", id( v ), " should be ", str( e ), ", got ", str( g ) ) );
    H().check( sorted( std::vector<unsigned>( lo.begin(), lo.end() ) ) == sorted( lower ),  "neighbours", cat( "lower neighbours of ", id( v ), " are wrong" ) );
    H().check( sorted( std::vector<unsigned>( hi.begin(), hi.end() ) ) == sorted( higher ), "neighbours", cat( "higher neighbours of ", id( v ), " are wrong" ) );
  }
}

static std::string show( const std::vector<Face>& faces, const std::vector<unsigned>& ids, const std::vector<double>& values, bool isolated )
{
  std::string s = cat( "ids ", str( ids ), " values ", str( values ), isolated ? " with isolated vertices" : "", " faces" );
  for( auto&& f : faces ) { s += " "; for( auto v : f ) s += str( ids[v] ) + ( &v == &f.back() ? "" : "-" ); }
  return s;
}

static M_ build( const std::vector<Face>& faces, unsigned n, const std::vector<unsigned>& ids, const std::vector<double>& values, bool isolated )
{
  M_ M;
  std::set<unsigned> used;
  for( auto&& f : faces ) used.insert( f.begin(), f.end() );
  for( unsigned v = 0; v < n; v++ )
    if( isolated || used.count( v ) )
      M.addVertex( double( v ), 1, 2, values[v], ids[v] );
  for( auto&& f : faces )
  {
    std::vector<unsigned> g;
    for( auto v : f ) g.push_back( ids[v] );
    M.addFace( g.begin(), g.end() );
  }
  return M;
}

static void run( const std::vector<Face>& faces, unsigned n, const std::vector<unsigned>& ids, const std::vector<double>& values, bool isolated )
{
  H().setCase( show( faces, ids, values, isolated ) );
  H().state();
  H().guarded( "mesh", [&]
  {
    auto M = build( faces, n, ids, values, isolated );
    compare( M, faces, n, ids, values, isolated );
    for( unsigned v = 0; v < n; v++ )
    {
      std::vector<Face> st;
      for( auto&& f : faces ) if( std::find( f.begin(), f.end(), v ) != f.end() ) st.push_back( f );
      if( !st.empty() && surface( st, n ) ) compare( M.star( ids[v] ), st, n, ids, values, false );
    }
    H().trace();
    H().sample();
  } );
}

// All sequences of faces for which all prefixes are surfaces; every sequence
// is explored up to renaming of vertices (first occurrences in order).
static void grow( const std::vector<Face>& alphabet, std::vector<Face>& faces, unsigned n, std::size_t maxFaces, bool rename, std::function<void( const std::vector<Face>& )> f )
{
  if( !faces.empty() ) f( faces );
  if( faces.size() == maxFaces ) return;
  for( auto&& t : alphabet )
  {
    faces.push_back( t );
    bool fine = surface( faces, n );
    if( fine && rename )
    {
      unsigned next = 0;
      for( auto&& g : faces ) for( auto v : g ) { if( v > next ) fine = false; if( v == next ) ++next; }
    }
    if( fine ) grow( alphabet, faces, n, maxFaces, rename, f );
    faces.pop_back();
  }
}

// All permutations of the faces of a surface; intermediate meshes need not be
// surfaces.
static void permuted( const std::vector<Face>& alphabet, std::vector<Face>& faces, unsigned n, std::size_t maxFaces, std::function<void( const std::vector<Face>& )> f )
{
  if( !faces.empty() && surface( faces, n ) )
  {
    unsigned next = 0;
    bool fine = true;
    for( auto&& g : faces ) for( auto v : g ) { if( v > next ) fine = false; if( v == next ) ++next; }
    if( fine ) f( faces );
  }
  if( faces.size() == maxFaces ) return;
  for( auto&& t : alphabet )
  {
    bool fine = true;
    std::set< std::pair<unsigned, unsigned> > directed;
    faces.push_back( t );
    for( auto&& g : faces ) for( std::size_t i = 0; i < g.size(); i++ ) if( !directed.insert( { g[i], g[ ( i + 1 ) % g.size() ] } ).second ) fine = false;
    if( fine ) permuted( alphabet, faces, n, maxFaces, f );
    faces.pop_back();
  }
}

static std::vector<Face> polygons( unsigned n, unsigned k, bool rotations )
{
  std::vector<Face> r;
  forAllVectors( k, n, [&] ( const std::vector<unsigned>& x )
  {
    std::set<unsigned> s( x.begin(), x.end() );
    if( s.size() != k ) return;
    if( rotations || x[0] == *s.begin() ) r.push_back( x );
  } );
  return r;
}

// Automatic and user-supplied identifiers
static void identifiers()
{
  forAllVectors( 4, 6, [&] ( const std::vector<unsigned>& x )
  {
    if( !H().mine() ) return;
    H().setCase( "identifiers (5: automatic) " + str( x ) );
    H().state();
    H().guarded( "identifiers", [&]
    {
      M_ M;
      std::set<unsigned> used;
      for( std::size_t i = 0; i < x.size(); i++ )
      {
        H().step();
        if( x[i] == 5 )
        {
          M.addVertex( 0, 0, 0, double( i ) );
          auto v = M.vertices();
          H().check( v.size() == used.size() + 1, "identifiers", "automatic identifier is not new" );
          for( auto&& w : v ) if( !used.count( unsigned( w ) ) ) { used.insert( unsigned( w ) ); H().check( M.data( w ) == double( i ), "identifiers", "wrong data for automatic identifier" ); }
        }
        else
        {
          bool thrown = false;
          try { M.addVertex( 0, 0, 0, double( i ), x[i] ); } catch( std::exception& ) { thrown = true; }
          H().check( thrown == ( used.count( x[i] ) != 0 ), "identifiers", "duplicate identifiers must be rejected, new ones accepted" );
          used.insert( x[i] );
        }
        H().check( M.numVertices() == used.size(), "identifiers", "wrong number of vertices" );
      }
      H().trace();
    } );
  } );
}

// Families of larger surfaces: f( name, faces, number of vertices )
template <class F> void surfaces( unsigned limit, F f )
{
  for( unsigned n = 3; n <= limit; n++ )
  {
    Face polygon;
    std::vector<Face> open, closed, strip, prism, pyramid, islands;
    for( unsigned i = 0; i < n; i++ )
    {
      unsigned j = ( i + 1 ) % n;
      polygon.push_back( i );
      if( i + 1 < n ) open.push_back( { n, i, i + 1 } );
      closed.push_back( { i, j, n } );
      strip.push_back( i % 2 ? Face{ i + 1, i, i + 2 } : Face{ i, i + 1, i + 2 } );
      prism.push_back( { i, j, n + j, n + i } );
      if( i < 8 ) islands.push_back( { 3 * i, 3 * i + 1, 3 * i + 2 } );
    }
    f( cat( "polygon ", n ), std::vector<Face>{ polygon }, n );
    f( cat( "open fan ", n ), open, n + 1 );
    f( cat( "closed fan ", n ), closed, n + 1 );
    f( cat( "strip ", n ), strip, n + 2 );
    f( cat( "open prism ", n ), prism, 2 * n );
    if( n <= 8 ) f( cat( "islands ", n ), islands, 3 * n );
    pyramid = closed;
    pyramid.push_back( Face( polygon.rbegin(), polygon.rend() ) );
    f( cat( "pyramid ", n ), pyramid, n + 1 );
    auto bipyramid = closed;
    for( unsigned i = 0; i < n; i++ ) bipyramid.push_back( { ( i + 1 ) % n, i, n + 1 } );
    f( cat( "bipyramid ", n ), bipyramid, n + 2 );
  }
  for( unsigned a = 1; a <= 6; a++ ) for( unsigned b = 1; b <= 6; b++ )
    for( unsigned kind = 0; kind < 4; kind++ )
    {
      bool wrap = kind & 1, quads = kind & 2;
      if( wrap && ( a < 3 || b < 3 ) ) continue;
      if( a * b > limit ) continue;
      unsigned nx = wrap ? a : a + 1, ny = wrap ? b : b + 1;
      auto id = [&] ( unsigned x, unsigned y ) { return ( y % ny ) * nx + x % nx; };
      std::vector<Face> faces;
      for( unsigned y = 0; y < b; y++ ) for( unsigned x = 0; x < a; x++ )
      {
        if( quads ) faces.push_back( { id( x, y ), id( x + 1, y ), id( x + 1, y + 1 ), id( x, y + 1 ) } );
        else
        {
          faces.push_back( { id( x, y ), id( x + 1, y ), id( x, y + 1 ) } );
          faces.push_back( { id( x + 1, y ), id( x + 1, y + 1 ), id( x, y + 1 ) } );
        }
      }
      f( cat( wrap ? "torus " : "grid ", a, " ", b, quads ? " of quadrilaterals" : "" ), faces, nx * ny );
    }
}

void explore()
{
  surfaces( H().thorough ? 36 : 20, [&] ( const std::string&, const std::vector<Face>& S, unsigned n )
  {
    for( unsigned kind = 0; kind < 3; kind++ )
    {
      if( !H().mine() ) continue;
      std::vector<unsigned> ids;
      std::vector<double> values;
      for( unsigned i = 0; i < n; i++ )
      {
        ids.push_back( kind == 0 ? i : kind == 1 ? 3 + 7 * ( n - i ) : ( i * 37 + 11 ) % 101 );
        values.push_back( kind == 1 ? i : ( i * 5 ) % 7 );
      }
      auto faces = S;
      if( kind == 1 ) std::reverse( faces.begin(), faces.end() );
      if( kind == 2 ) for( std::size_t i = 0; i < faces.size(); i++ ) { std::swap( faces[i], faces[ ( i * 13 + 5 ) % faces.size() ] ); std::rotate( faces[i].begin(), faces[i].begin() + 1, faces[i].end() ); }
      run( faces, n, ids, values, kind == 2 );
    }
  } );
  identifiers();
  auto all = [&] ( unsigned n, const std::vector<Face>& alphabet, std::size_t maxFaces, std::vector<unsigned> ids, std::vector<double> values, bool isolated )
  {
    std::vector<Face> faces;
    grow( alphabet, faces, n, maxFaces, true, [&] ( const std::vector<Face>& f ) { if( H().mine() ) run( f, n, ids, values, isolated ); } );
  };
  all( 4, polygons( 4, 3, true ), 4, { 0, 1, 2, 3 }, { 0, 1, 2, 3 }, false );
  all( 4, polygons( 4, 3, false ), 4, { 7, 3, 12, 5 }, { 1, 0, 1, 2 }, true );
  {
    std::vector<Face> faces;
    permuted( polygons( 5, 3, false ), faces, 5, H().thorough ? 5 : 4, [&] ( const std::vector<Face>& f ) { if( H().mine() ) run( f, 5, { 4, 2, 0, 1, 3 }, { 0, 2, 1, 2, 3 }, true ); } );
  }
  all( 5, polygons( 5, 3, true ), H().thorough ? 6 : 4, { 0, 1, 2, 3, 4 }, { 0, 2, 1, 2, 3 }, false );
  all( 6, polygons( 6, 3, true ), H().thorough ? 5 : 3, { 5, 4, 3, 2, 1, 0 }, { 0, 2, 1, 2, 3, 1 }, true );
  if( H().thorough ) all( 6, polygons( 6, 3, true ), 6, { 5, 4, 3, 2, 1, 0 }, { 0, 2, 1, 2, 3, 1 }, false );
  auto mixed = polygons( 6, 4, true ), tri = polygons( 6, 3, true );
  mixed.insert( mixed.end(), tri.begin(), tri.end() );
  all( 6, mixed, H().thorough ? 4 : 3, { 0, 1, 2, 3, 4, 5 }, { 0, 2, 1, 2, 3, 1 }, false );

  // All orders of the faces of a bipyramid, a 2x2 grid and a tilted cube
  // without lid
  for( std::vector<Face> S : std::vector< std::vector<Face> >{
         { {0,1,3}, {1,2,3}, {2,0,3}, {1,0,4}, {2,1,4}, {0,2,4} },
         { {0,1,4,3}, {1,2,5,4}, {3,4,7,6}, {4,5,8,7} },
         { {0,3,2,1}, {0,1,5,4}, {1,2,6,5}, {2,3,7,6}, {3,0,4,7} } } )
  {
    std::sort( S.begin(), S.end() );
    std::vector<unsigned> ids;
    std::vector<double> values;
    for( unsigned i = 0; i < 9; i++ ) { ids.push_back( 20 - 2 * i ); values.push_back( ( i * 5 ) % 7 ); }
    do
    {
      if( H().mine() ) run( S, 9, ids, values, false );
    }
    while( std::next_permutation( S.begin(), S.end() ) );
  }
}
