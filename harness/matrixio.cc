// Matrix readers: all small matrices in different layouts.

#include "common.hh"

#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>

#include <aleph/topology/io/AdjacencyMatrix.hh>
#include <aleph/topology/io/BipartiteAdjacencyMatrix.hh>
#include <aleph/topology/io/Matrix.hh>
#include <aleph/topology/io/SparseAdjacencyMatrix.hh>

#include <fstream>
#include <map>
#include <set>
#include <sstream>

using namespace vf;
namespace io = aleph::topology::io;

using Simplex = aleph::topology::Simplex<double, unsigned>;
using Complex = aleph::topology::SimplicialComplex<Simplex>;
using Content = std::map<std::vector<unsigned>, double>;

static std::string show( const Content& c )
{
  std::ostringstream s;
  for( auto&& p : c ) { for( auto&& v : p.first ) s << v << "."; s << ":" << p.second << " "; }
  return s.str();
}

template <class K_> static void compare( const K_& K, const Content& e, const char* key, bool sorted )
{
  Content c;
  bool duplicates = false, ordered = true, first = true;
  double last = 0;
  for( auto&& s : K )
  {
    std::vector<unsigned> v( s.begin(), s.end() );
    std::sort( v.begin(), v.end() );
    if( !c.insert( { v, double( s.data() ) } ).second ) duplicates = true;
    if( !first && s.data() < last ) ordered = false;
    first = false;
    last  = s.data();
  }
  H().step();
  H().check( !duplicates && show( c ) == show( e ), key, cat( "expected ", show( e ), ", got ", show( c ) ) );
  if( sorted ) H().check( ordered, key, cat( "simplices are not sorted by weight for ", show( e ) ) );
}

template <class F> static void rejected( const char* key, F f )
{
  bool thrown = false;
  try { f(); } catch( std::exception& ) { thrown = true; }
  H().check( thrown, key, "invalid matrix is not rejected" );
  H().step();
}

using Rows = std::vector<std::vector<double>>;

static std::string number( double d )
{
  if( std::isnan( d ) ) return "nan";
  std::ostringstream s;
  s << d;
  return s.str();
}

static const unsigned Layouts = 5;

static std::string text( const Rows& rows, unsigned layout )
{
  std::ostringstream s;
  if( layout == 1 ) s << "# 1 2 3\n";
  if( layout == 2 ) s << "\n";
  for( std::size_t y = 0; y < rows.size(); y++ )
  {
    if( layout == 2 || layout == 4 ) s << "  ";
    for( std::size_t x = 0; x < rows[y].size(); x++ ) s << ( x ? layout == 3 ? "\t" : layout == 4 ? " \t  " : " " : "" ) << number( rows[y][x] );
    if( layout == 2 ) s << "  \n\n";
    else if( layout == 1 ) s << "\n# comment\n#\n";
    else if( layout == 4 ) s << "\r\n   # 7\n  \n";
    else if( layout == 3 && y + 1 == rows.size() ) ;
    else s << "\n";
  }
  return s.str();
}

static std::vector<Rows> matrices( unsigned h, unsigned w, const std::vector<double>& values, bool symmetric )
{
  std::vector<Rows> r;
  forAllVectors( h * w, unsigned( values.size() ), [&] ( const std::vector<unsigned>& v )
  {
    Rows m( h, std::vector<double>( w ) );
    for( unsigned y = 0; y < h; y++ ) for( unsigned x = 0; x < w; x++ ) m[y][x] = values[v[y * w + x]];
    if( symmetric ) for( unsigned y = 0; y < h; y++ ) for( unsigned x = 0; x < y; x++ ) if( m[y][x] != m[x][y] ) return;
    r.push_back( m );
  } );
  return r;
}

// Reads from streams and files, with fresh and used readers
template <class Reader, class K_, class... Args> static void read( Reader& r, const std::string& t, bool stream, K_& K, Args... args )
{
  if( stream )
  {
    std::istringstream in( t );
    r( in, K, args... );
  }
  else
  {
    auto name = H().scratch + cat( "/matrix-", H().shard, ".txt" );
    std::ofstream( name ) << t;
    r( name, K, args... );
  }
}

// Adjacency matrices --------------------------------------------------

using Adjacency = io::AdjacencyMatrixReader;
using Strategy  = Adjacency::VertexWeightAssignmentStrategy;

template <class V> static void adjacency( const Rows& m, unsigned layout, bool zeros, bool nans, unsigned strategy, unsigned functor )
{
  using S = aleph::topology::Simplex<double, V>;
  using C = aleph::topology::SimplicialComplex<S>;
  static Adjacency reused;
  auto t = text( m, layout );
  H().setCase( cat( "adjacency matrix zeros=", zeros, " nans=", nans, " strategy=", strategy, " functor=", functor, "\n", t ) );
  H().state();
  H().guarded( "adjacency", [&]
  {
    double lo = 0, hi = 0;
    bool any = false;
    for( auto&& row : m ) for( double x : row )
    {
      if( std::isnan( x ) ) continue;
      lo = any ? std::min( lo, x ) : x;
      hi = any ? std::max( hi, x ) : x;
      any = true;
    }
    auto f = [functor] ( double a, double b, double x ) { return functor == 2 ? a + 2 * b - x : x; };
    Content e;
    for( unsigned i = 0; i < m.size(); i++ )
    {
      e[{ i }] = strategy == 0 ? f( hi, lo, hi ) : strategy == 1 ? f( hi, lo, lo ) : 0;
      for( unsigned j = i + 1; j < m.size(); j++ )
      {
        if( ( nans && std::isnan( m[i][j] ) ) || ( zeros && m[i][j] == 0 ) ) continue;
        e[{ i, j }] = f( hi, lo, m[i][j] );
      }
    }
    Adjacency fresh;
    for( auto r : { &fresh, &reused } )
    {
      zeros ? r->setIgnoreZeroWeights() : r->setIgnoreZeroWeights( false );
      nans ? r->setIgnoreNaNs() : r->setIgnoreNaNs( false );
      r->setVertexWeightAssignmentStrategy( strategy == 0 ? Strategy::AssignGlobalMaximum : strategy == 1 ? Strategy::AssignGlobalMinimum : Strategy::AssignZero );
      C K;
      if( functor ) read( *r, t, r == &fresh, K, f );
      else read( *r, t, r != &fresh, K );
      compare( K, e, r == &fresh ? "adjacency" : "adjacency-reuse", true );
      H().check( r->dimension() == m.size(), "adjacency-dimension", cat( "dimension is ", r->dimension() ) );
    }
    H().trace();
    H().sample();
  } );
}

static void adjacencyMatrices()
{
  std::vector<Rows> all;
  for( unsigned n = 1; n <= 2; n++ ) for( auto&& m : matrices( n, n, { 0, -1, 2 }, false ) ) all.push_back( m );
  for( auto&& m : matrices( 3, 3, { 0, -1, 2 }, !H().thorough ) ) all.push_back( m );
  if( !H().thorough ) for( auto&& m : matrices( 3, 3, { -2.5, 1e-3 }, false ) ) all.push_back( m );
  unsigned k = 0;
  for( auto&& m : all )
    for( unsigned zeros = 0; zeros < 2; zeros++ ) for( unsigned strategy = 0; strategy < 3; strategy++ ) for( unsigned functor = 0; functor < 3; functor++ )
    for( unsigned layout = 0; layout < Layouts; layout++ )
      if( ( m.size() < 3 || ++k % 3 == 0 ) && H().mine() ) adjacency<unsigned>( m, layout, zeros, false, strategy, functor );
  double nan = std::numeric_limits<double>::quiet_NaN();
  for( unsigned n = 1; n <= 3; n++ )
    for( auto&& m : matrices( n, n, n < 3 ? std::vector<double>{ nan, 1, -1, 0 } : std::vector<double>{ nan, 1, -1 }, n > 2 ) )
      for( unsigned zeros = 0; zeros < 2; zeros++ ) for( unsigned strategy = 0; strategy < 3; strategy++ )
        if( H().mine() ) adjacency<unsigned>( m, ( zeros + strategy ) % Layouts, zeros, true, strategy, strategy );
  // More entries than the vertex type is able to represent
  for( unsigned n : { 15, 16, 17, 40 } )
  {
    Rows m( n, std::vector<double>( n ) );
    for( unsigned i = 0; i < n; i++ ) for( unsigned j = 0; j < n; j++ ) m[i][j] = 3 + int( i * n + j );
    if( H().mine() ) adjacency<unsigned char>( m, 0, false, false, 1, 0 );
  }
  // All numbers of rows and columns
  forAllVectors( 3, 5, [&] ( const std::vector<unsigned>& l )
  {
    for( unsigned h = 1; h <= 3; h++ )
    {
      if( h < 3 && l[2] != 1 ) continue;
      Rows m;
      bool square = true, equal = true, empty = false;
      for( unsigned y = 0; y < h; y++ )
      {
        m.push_back( std::vector<double>( l[y], 1 ) );
        square = square && l[y] == h;
        equal  = equal && l[y] == l[0];
        empty  = empty || l[y] == 0;
      }
      if( empty ) continue;
      for( unsigned layout = 0; layout < Layouts; layout++ )
      {
        auto t = text( m, layout );
        H().setCase( "invalid matrix\n" + t );
        H().state();
        if( !square ) rejected( "adjacency-columns", [&] { Adjacency r; Complex K; read( r, t, true, K ); } );
        if( !equal )
        {
          rejected( "bipartite-columns", [&] { io::BipartiteAdjacencyMatrixReader r; Complex K; read( r, t, true, K ); } );
          rejected( "matrix-columns", [&] { io::MatrixReader r; Complex K; read( r, t, true, K ); } );
        }
      }
    }
  } );
  for( std::string t : { "x", "1 x\n2 3", "1 2\nx 3" } )
  {
    H().setCase( "invalid matrix\n" + t );
    H().state();
    rejected( "adjacency-number", [&] { Adjacency r; Complex K; read( r, t, true, K ); } );
    rejected( "bipartite-number", [&] { io::BipartiteAdjacencyMatrixReader r; Complex K; read( r, t, true, K ); } );
    rejected( "matrix-number", [&] { io::MatrixReader r; Complex K; read( r, t, true, K ); } );
  }
  H().setCase( "missing matrix" );
  rejected( "adjacency-missing", [&] { Adjacency r; Complex K; r( H().scratch + "/missing.txt", K ); } );
  rejected( "bipartite-missing", [&] { io::BipartiteAdjacencyMatrixReader r; Complex K; r( H().scratch + "/missing.txt", K ); } );
  rejected( "matrix-missing", [&] { io::MatrixReader r; Complex K; r( H().scratch + "/missing.txt", K ); } );
}

// Bipartite adjacency matrices ----------------------------------------

template <class V> static void bipartite( const Rows& m, unsigned layout, bool minimum, bool absolute )
{
  using C = aleph::topology::SimplicialComplex<aleph::topology::Simplex<double, V>>;
  static io::BipartiteAdjacencyMatrixReader reused;
  auto t = text( m, layout );
  H().setCase( cat( "bipartite adjacency matrix minimum=", minimum, " absolute=", absolute, "\n", t ) );
  H().state();
  H().guarded( "bipartite", [&]
  {
    unsigned h = unsigned( m.size() ), w = unsigned( m[0].size() );
    Content e;
    double lo = m[0][0];
    for( auto&& row : m ) for( double x : row ) lo = std::min( lo, x );
    auto weight = [&] ( std::vector<double> v )
    {
      if( absolute ) std::sort( v.begin(), v.end(), [] ( double a, double b ) { return std::abs( a ) < std::abs( b ); } );
      else if( minimum ) std::sort( v.begin(), v.end() );
      else return lo;
      return v[0];
    };
    for( unsigned y = 0; y < h; y++ ) e[{ y }] = weight( m[y] );
    for( unsigned x = 0; x < w; x++ )
    {
      std::vector<double> column;
      for( unsigned y = 0; y < h; y++ ) { column.push_back( m[y][x] ); e[{ y, h + x }] = m[y][x]; }
      e[{ h + x }] = weight( column );
    }
    io::BipartiteAdjacencyMatrixReader fresh;
    for( auto r : { &fresh, &reused } )
    {
      minimum ? r->setAssignMinimumVertexWeight() : r->setAssignMinimumVertexWeight( false );
      absolute ? r->setAssignMinimumAbsoluteVertexWeight() : r->setAssignMinimumAbsoluteVertexWeight( false );
      H().check( r->assignMinimumVertexWeight() == minimum && r->assignMinimumAbsoluteVertexWeight() == absolute, "bipartite-configuration", "configuration is not stored" );
      C K;
      read( *r, t, r != &fresh, K );
      compare( K, e, r == &fresh ? "bipartite" : "bipartite-reuse", true );
      H().check( r->height() == h && r->width() == w, "bipartite-size", cat( "size is ", r->height(), "x", r->width() ) );
    }
    H().trace();
  } );
}

static void bipartiteMatrices()
{
  unsigned k = 0;
  for( unsigned h = 1; h <= 3; h++ ) for( unsigned w = 1; w <= 3; w++ )
  {
    auto values = h * w == 9 && !H().thorough ? std::vector<double>{ -1, 2 } : std::vector<double>{ 0.5, -1, 2 };
    for( auto&& m : matrices( h, w, values, false ) )
      for( unsigned layout = 0; layout < Layouts; layout++ ) for( unsigned c = 0; c < 4; c++ )
        if( ( h * w < 6 || ++k % 3 == 0 ) && H().mine() ) bipartite<unsigned>( m, layout, c & 1, c & 2 );
  }
  for( unsigned n : { 15, 16, 17 } )
  {
    Rows m( n, std::vector<double>( n + 1 ) );
    for( unsigned i = 0; i < n; i++ ) for( unsigned j = 0; j <= n; j++ ) m[i][j] = 3 + int( i * n + i + j );
    for( unsigned c = 0; c < 4; c++ ) if( H().mine() ) bipartite<unsigned char>( m, 0, c & 1, c & 2 );
  }
}

// Grids ---------------------------------------------------------------

static void grid( const Rows& m, unsigned layout, bool triangles, unsigned functor )
{
  static io::MatrixReader reused;
  auto t = text( m, layout );
  H().setCase( cat( "matrix triangles=", triangles, " functor=", functor, "\n", t ) );
  H().state();
  H().guarded( "matrix", [&]
  {
    unsigned h = unsigned( m.size() ), w = m.empty() ? 0 : unsigned( m[0].size() );
    auto f = [functor] ( double a, double b ) { return functor == 2 ? std::min( a, b ) : std::max( a, b ); };
    Content e;
    auto add = [&] ( std::vector<unsigned> v )
    {
      std::sort( v.begin(), v.end() );
      double d = m[v[0] / w][v[0] % w];
      for( unsigned i : v ) d = f( d, m[i / w][i % w] );
      e[v] = d;
    };
    for( unsigned y = 0; y < h; y++ ) for( unsigned x = 0; x < w; x++ )
    {
      unsigned i = y * w + x;
      add( { i } );
      if( x + 1 < w ) add( { i, i + 1 } );
      if( y + 1 < h ) add( { i, i + w } );
      if( x + 1 < w && y + 1 < h )
      {
        add( { i, i + w + 1 } );
        if( triangles ) { add( { i, i + 1, i + w + 1 } ); add( { i, i + w, i + w + 1 } ); }
      }
    }
    io::MatrixReader fresh;
    for( auto r : { &fresh, &reused } )
    {
      if( r != &fresh || !triangles ) triangles ? r->addTriangles() : r->addTriangles( false );
      Complex K;
      if( functor ) read( *r, t, r == &fresh, K, f );
      else read( *r, t, r != &fresh, K );
      compare( K, e, r == &fresh ? "matrix" : "matrix-reuse", false );
      H().check( r->height() == h && r->width() == w, "matrix-size", cat( "size is ", r->height(), "x", r->width() ) );
    }
    H().trace();
  } );
}

static void grids()
{
  grid( {}, 0, true, 0 );
  grid( {}, 1, false, 0 );
  unsigned k = 0;
  for( unsigned h = 1; h <= 4; h++ ) for( unsigned w = 1; w <= 4; w++ )
  {
    if( h * w > 9 ) continue;
    auto values = h * w > ( H().thorough ? 8u : 6u ) ? std::vector<double>{ -1, 2.5 } : std::vector<double>{ 0, -1, 2.5 };
    for( auto&& m : matrices( h, w, values, false ) )
      for( unsigned layout = 0; layout < Layouts; layout++ ) for( unsigned triangles = 0; triangles < 2; triangles++ ) for( unsigned functor = 0; functor < 3; functor++ )
        if( ( h * w < 4 || ++k % ( h * w < 7 ? 3 : 7 ) == 0 ) && H().mine() ) grid( m, layout, triangles, functor );
  }
}

// Sparse adjacency matrices -------------------------------------------

struct Sparse { unsigned ids, directions, separator, labels, nodeLabels, nodeAttributes, edgeAttributes; };

static void put( const std::string& name, const std::string& t, bool exists )
{
  auto file = H().scratch + cat( "/sparse-", H().shard, name );
  if( exists ) std::ofstream( file ) << t;
  else std::remove( file.c_str() );
}

static void sparse( const std::vector<unsigned>& graph, unsigned graphs, std::uint64_t mask, const Sparse& c )
{
  static io::SparseAdjacencyMatrixReader reused;
  std::vector<unsigned> ids[3] = { { 1, 2, 3, 4 }, { 0, 1, 2, 3 }, { 2, 5, 11, 12 } };
  for( unsigned g = 4; g < graphs; g++ ) { ids[0].push_back( g + 1 ); ids[1].push_back( g ); ids[2].push_back( 3 * g + 1 ); }
  unsigned n = unsigned( graph.size() );
  std::vector<Content> e( graphs );
  std::ostringstream a, indicator, labels, nodeLabels, nodeAttributes, edgeAttributes;
  for( unsigned i = 0; i < n; i++ )
  {
    indicator << ids[c.ids][graph[i]] << "\n";
    nodeLabels << "N" << i << "\n";
    nodeAttributes << i + 0.5 << "," << -int( i ) << "\n";
    e[graph[i]][{ i + 1 }] = c.nodeAttributes == 1 ? i + 0.5 : c.nodeAttributes == 2 ? -int( i ) : 0;
  }
  for( unsigned g = 0; g < graphs; g++ ) labels << ( g % 2 ? " G" : "G" ) << g << "\n";
  unsigned bit = 0, k = 0;
  for( unsigned i = 0; i < n; i++ ) for( unsigned j = i + 1; j < n; j++ )
  {
    if( graph[i] != graph[j] ) continue;
    if( !( mask >> ( bit++ % 64 ) & 1 ) ) continue;
    const char* s = c.separator ? ", " : ",";
    for( unsigned d = 0; d < 2; d++ )
    {
      if( c.directions != 2 && c.directions != d ) continue;
      a << ( d ? j : i ) + 1 << s << ( d ? i : j ) + 1 << "\n";
      edgeAttributes << 7.25 + k << "," << -1 - int( k ) << "\n";
    }
    e[graph[i]][{ i + 1, j + 1 }] = c.edgeAttributes == 1 ? 7.25 + k : c.edgeAttributes == 2 ? -1 - int( k ) : 0;
    k++;
  }
  put( "_A.txt", a.str(), true );
  put( "_graph_indicator.txt", indicator.str(), true );
  put( "_graph_labels.txt", labels.str(), c.labels );
  put( "_node_labels.txt", nodeLabels.str(), c.nodeLabels == 1 );
  put( "_node_attributes.txt", nodeAttributes.str(), c.nodeAttributes );
  put( "_edge_attributes.txt", edgeAttributes.str(), c.edgeAttributes );
  H().setCase( cat( "sparse adjacency matrix labels=", c.labels, c.nodeLabels, " attributes=", c.nodeAttributes, c.edgeAttributes, "\n", a.str(), "graphs\n", indicator.str() ) );
  H().state();
  H().guarded( "sparse", [&]
  {
    io::SparseAdjacencyMatrixReader fresh;
    for( auto r : { &fresh, &reused } )
    {
      c.labels ? r->setReadGraphLabels() : r->setReadGraphLabels( false );
      c.nodeLabels ? r->setReadNodeLabels() : r->setReadNodeLabels( false );
      c.nodeAttributes ? r->setReadNodeAttributes() : r->setReadNodeAttributes( false );
      c.edgeAttributes ? r->setReadEdgeAttributes() : r->setReadEdgeAttributes( false );
      if( c.nodeAttributes ) r->setNodeAttributeIndex( c.nodeAttributes - 1 );
      if( c.edgeAttributes ) r->setEdgeAttributeIndex( c.edgeAttributes - 1 );
      std::vector<Complex> K( 2 );
      ( *r )( H().scratch + cat( "/sparse-", H().shard, "_A.txt" ), K );
      H().check( K.size() == graphs, "sparse-graphs", cat( "number of graphs is ", K.size() ) );
      for( std::size_t i = 0; i < std::min<std::size_t>( K.size(), graphs ); i++ ) compare( K[i], e[i], r == &fresh ? "sparse" : "sparse-reuse", true );
      std::vector<std::string> l, m, expected, nodes;
      r->graphLabels( std::back_inserter( l ) );
      r->nodeLabels( std::back_inserter( m ) );
      for( unsigned g = 0; g < graphs; g++ ) expected.push_back( cat( "G", g ) );
      for( unsigned i = 0; i < n; i++ ) nodes.push_back( cat( "N", i ) );
      if( c.labels ) H().check( l == expected, "sparse-graph-labels", "graph labels are wrong" );
      if( c.nodeLabels ) H().check( m == ( c.nodeLabels == 1 ? nodes : std::vector<std::string>() ), "sparse-node-labels", "node labels are wrong" );
    }
    H().trace();
  } );
}

static void sparseMatrices()
{
  unsigned k = 0;
  for( unsigned n = 1; n <= 4; n++ )
    forAllVectors( n, std::min( n, 3u ), [&] ( const std::vector<unsigned>& graph )
    {
      // All graphs need at least one node
      std::set<unsigned> s( graph.begin(), graph.end() );
      if( *s.rbegin() + 1 != s.size() ) return;
      unsigned pairs = 0;
      for( unsigned i = 0; i < n; i++ ) for( unsigned j = i + 1; j < n; j++ ) pairs += graph[i] == graph[j];
      for( unsigned mask = 0; mask < ( 1u << pairs ); mask++ )
        for( unsigned ids = 0; ids < 3; ids++ ) for( unsigned d = 0; d < 3; d++ ) for( unsigned sep = 0; sep < 2; sep++ )
        for( unsigned l = 0; l < 2; l++ ) for( unsigned nl = 0; nl < 3; nl++ ) for( unsigned na = 0; na < 3; na++ ) for( unsigned ea = 0; ea < 3; ea++ )
        {
          k++;
          if( n == 3 && k % 5 ) continue;
          if( n == 4 && k % ( H().thorough ? 17 : 101 ) ) continue;
          if( H().mine() ) sparse( graph, unsigned( s.size() ), mask, { ids, d, sep, l, nl, na, ea } );
        }
    } );
  // Invalid files
  auto invalid = [&] ( const char* key, const std::string& a, const std::string& indicator, bool labels, const char* nodes, const char* edges )
  {
    if( !H().mine() ) return;
    put( "_A.txt", a, true );
    put( "_graph_indicator.txt", indicator, !indicator.empty() );
    put( "_graph_labels.txt", "A\nB\nC\n", labels );
    put( "_node_attributes.txt", nodes ? nodes : "", nodes );
    put( "_edge_attributes.txt", edges ? edges : "", edges );
    H().setCase( cat( key, "\n", a, "graphs\n", indicator ) );
    H().state();
    rejected( key, [&]
    {
      io::SparseAdjacencyMatrixReader r;
      if( nodes ) { r.setReadNodeAttributes(); r.setNodeAttributeIndex( 1 ); }
      if( edges ) { r.setReadEdgeAttributes(); r.setEdgeAttributeIndex( 1 ); }
      std::vector<Complex> K;
      r( H().scratch + cat( "/sparse-", H().shard, "_A.txt" ), K );
    } );
  };
  for( unsigned n = 1; n <= 4; n++ )
    for( unsigned u = 0; u <= n + 1; u++ ) for( unsigned v = 0; v <= n + 1; v++ )
    {
      if( u == v ) continue;
      std::string same, different;
      for( unsigned i = 0; i < n; i++ ) { same += "1\n"; different += cat( i + 1, "\n" ); }
      if( u == 0 || v == 0 || u > n || v > n ) invalid( "sparse-unknown-node", cat( u, ",", v, "\n" ), same, true, nullptr, nullptr );
      invalid( "sparse-different-graphs", cat( u, ",", v, "\n" ), different, true, nullptr, nullptr );
    }
  invalid( "sparse-tokens", "1\n", "1\n1\n", true, nullptr, nullptr );
  invalid( "sparse-tokens", "1,2,1\n", "1\n1\n", true, nullptr, nullptr );
  invalid( "sparse-indicator", "1,2\n", "", true, nullptr, nullptr );
  invalid( "sparse-indicator", "1,2\n", "a\nb\n", true, nullptr, nullptr );
  invalid( "sparse-labels", "1,2\n", "1\n1\n", false, nullptr, nullptr );
  invalid( "sparse-node-attributes", "1,2\n", "1\n1\n", true, "1,2\n", nullptr );
  invalid( "sparse-node-attributes", "1,2\n", "1\n1\n", true, "1,2\n3\n", nullptr );
  invalid( "sparse-edge-attributes", "1,2\n2,1\n", "1\n1\n", true, nullptr, "1,2\n" );
  invalid( "sparse-edge-attributes", "1,2\n2,1\n", "1\n1\n", true, nullptr, "1,2\n3\n" );
  H().setCase( "missing sparse matrix" );
  rejected( "sparse-missing", [&] { io::SparseAdjacencyMatrixReader r; std::vector<Complex> K; r( H().scratch + "/missing_A.txt", K ); } );
}

// Families of larger matrices
static void large()
{
  auto entry = [] ( unsigned kind, unsigned i, unsigned j )
  {
    return kind == 0 ? double( i + j ) : kind == 1 ? double( i > j ? i - j : j - i ) : kind == 2 ? double( ( i + 1 ) * ( j + 1 ) * 37 % 101 ) - 50 : double( ( i ^ j ) % 3 ) / 2;
  };
  auto make = [&] ( unsigned h, unsigned w, unsigned kind )
  {
    Rows m( h, std::vector<double>( w ) );
    for( unsigned i = 0; i < h; i++ ) for( unsigned j = 0; j < w; j++ ) m[i][j] = entry( kind, i, j );
    return m;
  };
  for( unsigned n = 4; n <= ( H().thorough ? 40u : 20u ); n++ )
    for( unsigned kind = 0; kind < 4; kind++ )
      for( unsigned zeros = 0; zeros < 2; zeros++ ) for( unsigned strategy = 0; strategy < 3; strategy++ )
        if( H().mine() ) adjacency<unsigned>( make( n, n, kind ), ( n + kind ) % Layouts, zeros, false, strategy, ( n + strategy ) % 3 );
  for( unsigned h = 1; h <= 14; h++ ) for( unsigned w = 1; w <= 14; w++ )
    for( unsigned kind = 0; kind < 3; kind++ )
    {
      if( ( h < 4 && w < 4 ) || ( !H().thorough && ( h * 3 + w + kind ) % 4 ) || !H().mine() ) continue;
      // Entries of bipartite matrices need to be non-zero
      auto m = make( h, w, kind );
      for( auto&& row : m ) for( auto&& x : row ) x += 0.25;
      bipartite<unsigned>( m, ( h + w ) % Layouts, h % 2, w % 2 );
      grid( make( h, w, kind ), ( h + w ) % Layouts, ( h + kind ) % 2, w % 3 );
    }
  for( unsigned n = 5; n <= ( H().thorough ? 60u : 30u ); n++ )
    for( unsigned kind = 0; kind < 6; kind++ )
    {
      if( !H().mine() ) continue;
      // Nodes of the graphs in blocks or interleaved
      unsigned graphs = kind < 2 ? 1 : std::min( n, 2 + ( n + kind ) % 12 );
      std::vector<unsigned> graph;
      for( unsigned i = 0; i < n; i++ ) graph.push_back( kind % 2 ? i % graphs : std::min( i * graphs / n, graphs - 1 ) );
      sparse( graph, graphs, 0x9E3779B97F4A7C15ull * ( n + kind ) | 1, { n % 3, ( n + kind ) % 3, kind % 2, n % 2, ( n / 2 ) % 3, ( n + kind ) % 3, n / 3 % 3 } );
    }
}

void explore()
{
  large();
  adjacencyMatrices();
  bipartiteMatrices();
  grids();
  sparseMatrices();
}
