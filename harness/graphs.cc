// Graph readers: all small graphs in all supported layouts of GML, Pajek,
// GraphML files and edge lists.

#include "common.hh"

#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>

#include <aleph/topology/io/EdgeLists.hh>
#include <aleph/topology/io/GML.hh>
#include <aleph/topology/io/GraphML.hh>
#include <aleph/topology/io/Pajek.hh>
#include <aleph/topology/io/SimplicialComplexReader.hh>

#include <fstream>
#include <map>
#include <set>
#include <sstream>

using namespace vf;
namespace io = aleph::topology::io;

using Simplex = aleph::topology::Simplex<double, unsigned>;
using Complex = aleph::topology::SimplicialComplex<Simplex>;

struct Edge { unsigned u, v; double w; };

struct Graph
{
  unsigned n = 0;
  std::vector<double> weights; // of vertices
  std::vector<Edge> edges;
};

// Expected or actual graph: weights of vertices and edges
struct Content
{
  std::map<unsigned, double> vertices;
  std::map<std::pair<unsigned, unsigned>, double> edges;
  std::size_t others = 0, duplicates = 0;

  void vertex( unsigned v, double w ) { if( !vertices.insert( { v, w } ).second ) duplicates++; }
  void edge( unsigned u, unsigned v, double w ) { if( !edges.insert( { { std::min( u, v ), std::max( u, v ) }, w } ).second ) duplicates++; }

  std::string text() const
  {
    std::ostringstream s;
    for( auto&& v : vertices ) s << v.first << ":" << v.second << " ";
    for( auto&& e : edges ) s << e.first.first << "-" << e.first.second << ":" << e.second << " ";
    if( others ) s << "and " << others << " other simplices ";
    if( duplicates ) s << "and " << duplicates << " duplicates ";
    return s.str();
  }
  bool operator==( const Content& o ) const { return text() == o.text(); }
};

static Content content( const Complex& K )
{
  Content c;
  for( auto&& s : K )
  {
    std::vector<unsigned> v( s.begin(), s.end() );
    if( v.size() == 1 ) c.vertex( v[0], s.data() );
    else if( v.size() == 2 ) c.edge( v[0], v[1], s.data() );
    else c.others++;
  }
  return c;
}

static std::string file( const std::string& text, const std::string& extension )
{
  auto name = H().scratch + cat( "/graph-", H().shard, extension );
  std::ofstream( name ) << text;
  return name;
}

static void compare( const Complex& K, const Content& e, const char* key, const std::string& text )
{
  auto g = content( K );
  H().step();
  H().check( g == e, key, cat( "expected ", e.text(), ", got ", g.text(), " for\n", text ) );
}

template <class F> static void rejected( const char* key, const std::string& text, F f )
{
  bool thrown = false;
  try { f(); } catch( std::exception& ) { thrown = true; }
  H().check( thrown, key, "invalid file is not rejected:\n" + text );
  H().step();
}

static double maximum( double a, double b ) { return std::max( a, b ); }
static double minimum( double a, double b ) { return std::min( a, b ); }

static std::string number( double d ) { std::ostringstream s; s << d; return s.str(); }

// All graphs with n vertices, weights in different patterns
template <class F> static void allGraphs( unsigned n, unsigned patterns, F f )
{
  static const double w[] = { 0.5, -1.25, 3, 1e-07, -2e+20, 7, 0, 12.125 };
  std::vector<std::pair<unsigned, unsigned>> pairs;
  for( unsigned i = 0; i < n; i++ ) for( unsigned j = i + 1; j < n; j++ ) pairs.push_back( { i, j } );
  for( unsigned m = 0; m < ( 1u << pairs.size() ); m++ )
    for( unsigned p = 0; p < patterns; p++ )
    {
      Graph g;
      g.n = n;
      for( unsigned i = 0; i < n; i++ ) g.weights.push_back( w[( 3 * i + p + 1 ) % 8] );
      for( unsigned k = 0; k < pairs.size(); k++ )
        if( m >> k & 1 ) g.edges.push_back( { pairs[k].first, pairs[k].second, w[( k + p + m ) % 8] } );
      f( g );
    }
}

static std::vector<std::string> names( unsigned style, unsigned n )
{
  static const std::vector<std::vector<std::string>> all = {
    { "0", "1", "2", "3", "4" },
    { "4", "12", "3", "100", "20" },
    { "b", "A", "cc", "Z", "aa" },
    { "1a", "1b", "1", "x1", "10" },
    { "a", "1", "2", "0", "b" }
  };
  std::vector<std::string> r( all[style].begin(), all[style].begin() + std::min( n, 5u ) );
  static const char* prefix[] = { "", "", "v", "1v", "w" };
  for( unsigned i = 5; i < n; i++ ) r.push_back( cat( prefix[style], style == 1 ? 200 + 7 * ( n - i ) : i ) );
  return r;
}

// Families of larger graphs
template <class F> static void largeGraphs( unsigned limit, F f )
{
  static const double w[] = { 0.5, -1.25, 3, 1e-07, -2e+20, 7, 0, 12.125 };
  for( unsigned n = 6; n <= limit; n++ )
    for( unsigned kind = 0; kind < 5; kind++ )
    {
      Graph g;
      g.n = n;
      for( unsigned i = 0; i < n; i++ ) g.weights.push_back( w[ ( 3 * i + kind ) % 8 ] + i );
      for( unsigned i = 0; i < n; i++ ) for( unsigned j = i + 1; j < n; j++ )
      {
        bool edge = kind == 0 ? j == i + 1 : kind == 1 ? i == 0 : kind == 2 ? j == i + 1 || ( i == 0 && j + 1 == n ) : kind == 3 ? ( i * 37 + j * 53 ) % 11 < 3 : n <= 12;
        if( edge ) g.edges.push_back( { i, j, w[ ( i + 2 * j ) % 8 ] + g.edges.size() } );
      }
      f( g, 5 * n + kind );
    }
}

static bool digits( const std::string& s ) { return !s.empty() && s.find_first_not_of( "0123456789" ) == std::string::npos; }

static unsigned value( const std::string& s )
{
  std::istringstream i( s );
  unsigned r = 0;
  i >> r;
  return r;
}

// Maps the names of nodes to vertices. Numbers are used as they are, other
// names need to be mapped to different indices, starting from zero.
template <class Map> static std::vector<unsigned> vertices( const std::vector<std::string>& names, const Map& map, bool numbers )
{
  std::vector<unsigned> r;
  std::set<unsigned> seen;
  bool numerical = numbers;
  for( auto&& s : names ) numerical = numerical && digits( s );
  for( auto&& s : names )
  {
    auto it = map.find( s );
    H().check( it != map.end(), "index", "there is no index for " + s );
    if( it == map.end() ) { r.push_back( 0 ); continue; }
    H().check( unsigned( it->second ) < names.size() && seen.insert( unsigned( it->second ) ).second, "index", "index of " + s + " is invalid" );
    r.push_back( numerical ? value( s ) : unsigned( it->second ) );
  }
  H().check( map.size() == names.size(), "index", "wrong number of indices" );
  return r;
}

// GML -----------------------------------------------------------------

struct Layout { unsigned brackets, indent, comments, nodes, edgesFirst, swapped, ids, edgeWeights, nodeWeights; };

// Weights may be given for every other node and edge only
static bool nodeWeight( const Layout& l, unsigned i )    { return l.nodeWeights == 3 ? i % 2 == 0 : l.nodeWeights != 0; }
static bool edgeWeight( const Layout& l, std::size_t k ) { return l.edgeWeights == 4 ? k % 2 == 0 : l.edgeWeights != 0; }

static std::string gml( const Graph& g, const Layout& l, const std::vector<std::string>& id )
{
  std::ostringstream s;
  std::string in[3] = { "", "", "" };
  if( l.indent == 1 ) { in[1] = "  "; in[2] = "    "; }
  if( l.indent == 2 ) { in[1] = "\t"; in[2] = "\t \t"; }
  auto open = [&] ( const char* name, unsigned level )
  {
    if( l.brackets == 0 ) s << in[level] << name << " [\n";
    else s << in[level] << name << "\n" << in[level] << "[\n";
  };
  auto noise = [&] ( unsigned level )
  {
    if( l.comments == 2 ) s << "\n" << in[level] << "# comment id 7\n" << in[level] << "comment \"weight 7\"\n";
  };
  if( l.comments == 1 ) s << "Creator \"a program\"\n";
  if( l.comments == 2 ) s << "# comment\n\n";
  open( "graph", 0 );
  if( l.comments ) s << in[1] << "directed 0\n";
  auto nodes = [&]
  {
    for( unsigned k = 0; k < g.n; k++ )
    {
      unsigned i = l.nodes ? g.n - 1 - k : k;
      noise( 1 );
      open( "node", 1 );
      noise( 2 );
      if( l.nodes ) s << in[2] << "label \"Label " << i << "\"\n";
      if( l.nodeWeights == 1 || ( l.nodeWeights == 3 && nodeWeight( l, i ) ) ) s << in[2] << "weight " << number( g.weights[i] ) << "\n";
      if( l.nodeWeights == 2 ) s << in[2] << "value " << number( g.weights[i] ) << "\n" << in[2] << "weight2 77\n";
      s << in[2] << "id " << id[i] << ( l.indent == 2 ? "  " : "" ) << "\n";
      if( !l.nodes ) s << in[2] << "label   \"Label " << i << "\"\n" << in[2] << "color red\n";
      s << in[1] << "]\n";
    }
  };
  auto edges = [&]
  {
    for( std::size_t k = 0; k < g.edges.size(); k++ )
    {
      auto&& e = g.edges[k];
      noise( 1 );
      open( "edge", 1 );
      if( l.edgeWeights == 2 ) s << in[2] << "value " << number( e.w ) << "\n";
      s << in[2] << "source " << id[ l.swapped ? e.v : e.u ] << "\n";
      noise( 2 );
      s << in[2] << "target   " << id[ l.swapped ? e.u : e.v ] << "\n";
      if( l.edgeWeights == 1 || ( l.edgeWeights == 4 && edgeWeight( l, k ) ) ) s << in[2] << "weight\t" << number( e.w ) << "\n";
      if( l.edgeWeights == 3 ) s << in[2] << "weight " << number( e.w ) << "\n" << in[2] << "value 99\n" << in[2] << "weight3 99\n";
      s << in[1] << "]\n";
    }
  };
  if( l.edgesFirst ) { edges(); nodes(); } else { nodes(); edges(); }
  s << "]" << ( l.comments == 1 ? "" : "\n" );
  return s.str();
}

static Content gmlExpected( const Graph& g, const Layout& l, const std::vector<unsigned>& v, double (*f)( double, double ) )
{
  Content c;
  std::vector<double> w;
  for( unsigned i = 0; i < g.n; i++ ) w.push_back( nodeWeight( l, i ) ? g.weights[i] : 0 );
  for( unsigned i = 0; i < g.n; i++ ) c.vertex( v[i], w[i] );
  for( std::size_t k = 0; k < g.edges.size(); k++ ) { auto&& e = g.edges[k]; c.edge( v[e.u], v[e.v], edgeWeight( l, k ) ? e.w : f( w[e.u], w[e.v] ) ); }
  return c;
}

static void gmlFile( const Graph& g, const Layout& l )
{
  static io::GMLReader reused;
  static const io::GMLReader pristine;
  static io::SimplicialComplexReader generic;
  auto id   = names( l.ids, g.n );
  auto text = gml( g, l, id );
  H().setCase( "GML\n" + text );
  H().state();
  H().guarded( "gml", [&]
  {
    auto name = file( text, ".gml" );
    io::GMLReader fresh = pristine;
    Complex K;
    fresh( name, K );
    auto v = vertices( id, fresh.id_to_index<unsigned>(), true );
    compare( K, gmlExpected( g, l, v, maximum ), "gml", text );
    {
      std::ifstream in( name );
      Complex L;
      reused( in, L );
      compare( L, gmlExpected( g, l, v, maximum ), "gml-reuse", text );
      reused( name, L, minimum );
      compare( L, gmlExpected( g, l, v, minimum ), "gml-functor", text );
    }
    for( auto r : { &fresh, &reused } )
    {
      auto labels = r->getNodeAttribute( "label" );
      auto none   = r->getNodeAttribute( "unknown" );
      auto weight = r->getNodeAttribute( "weight" );
      H().check( labels.size() == g.n && none.size() == g.n && weight.size() == g.n, "gml-attributes", "wrong number of attributes" );
      for( unsigned i = 0; i < g.n; i++ )
      {
        H().check( labels[id[i]] == cat( "Label ", i ), "gml-labels", "label of " + id[i] + " is " + labels[id[i]] );
        H().check( none[id[i]].empty(), "gml-attributes", "unknown attribute is not empty" );
        H().check( weight[id[i]] == ( l.nodeWeights != 2 && nodeWeight( l, i ) ? number( g.weights[i] ) : "" ), "gml-attributes", "weight attribute is " + weight[id[i]] );
      }
      for( std::size_t k = 0; k < g.edges.size(); k++ )
      {
        auto&& e = g.edges[k];
        auto s = id[ l.swapped ? e.v : e.u ], t = id[ l.swapped ? e.u : e.v ];
        auto w = r->getEdgeAttribute( s, t, "weight" );
        H().check( w == ( l.edgeWeights != 2 && edgeWeight( l, k ) ? number( e.w ) : "" ), "gml-edge-attribute", "weight of edge " + s + "-" + t + " is " + w );
        H().check( r->getEdgeAttribute( s, t, "unknown" ).empty() && r->getEdgeAttribute( t, s, "weight" ).empty(), "gml-edge-attribute", "attribute of unknown edge" );
      }
      std::set<std::string> ne, ee;
      if( g.n ) { ne.insert( "label" ); if( !l.nodes ) ne.insert( "color" ); if( l.nodeWeights & 1 ) ne.insert( "weight" ); if( l.nodeWeights == 2 ) { ne.insert( "value" ); ne.insert( "weight2" ); } }
      if( !g.edges.empty() ) { if( l.edgeWeights & 1 || l.edgeWeights == 4 ) ee.insert( "weight" ); if( l.edgeWeights & 2 ) ee.insert( "value" ); if( l.edgeWeights == 3 ) ee.insert( "weight3" ); }
      auto nn = r->getNodeAttributeNames(), en = r->getEdgeAttributeNames();
      H().check( std::set<std::string>( nn.begin(), nn.end() ) == ne && nn.size() == ne.size(), "gml-attribute-names", "names of node attributes are wrong" );
      H().check( std::set<std::string>( en.begin(), en.end() ) == ee && en.size() == ee.size(), "gml-attribute-names", "names of edge attributes are wrong" );
    }
    {
      Complex L;
      bool functor = ( l.comments + l.ids ) % 2;
      if( functor ) generic( name, L, minimum );
      else          generic( name, L );
      compare( L, gmlExpected( g, l, v, functor ? minimum : maximum ), "gml-generic", text );
      std::map<unsigned, std::string> e; // in the order of vertices
      for( unsigned i = 0; i < g.n; i++ ) e[v[i]] = cat( "Label ", i );
      std::vector<std::string> labels;
      for( auto&& p : e ) labels.push_back( p.second );
      H().check( generic.labels() == labels, "gml-generic-labels", "labels do not match the vertices" );
    }
    H().trace();
    H().sample();
  } );
}

static void gmlFiles()
{
  // All layouts for the smallest graphs
  for( unsigned n = 0; n <= 2; n++ )
    allGraphs( n, 1, [&] ( const Graph& g )
    {
      for( unsigned b = 0; b < 2; b++ ) for( unsigned in = 0; in < 3; in++ ) for( unsigned c = 0; c < 3; c++ )
      for( unsigned o = 0; o < 2; o++ ) for( unsigned ef = 0; ef < 2; ef++ ) for( unsigned sw = 0; sw < 2; sw++ )
      for( unsigned ids = 0; ids < 5; ids++ ) for( unsigned ew = 0; ew < 5; ew++ ) for( unsigned nw = 0; nw < 4; nw++ )
      {
        if( g.edges.empty() && ( ew || sw || ef ) ) continue;
        if( !H().thorough && ( in + 2 * c + 3 * o + 5 * sw + 7 * ids + 11 * ew + 5 * nw + 3 * ef + b ) % 7 ) continue;
        if( H().mine() ) gmlFile( g, { b, in, c, o, ef, sw, ids, ew, nw } );
      }
    } );
  unsigned k = 0;
  for( unsigned n = 3; n <= ( H().thorough ? 5u : 4u ); n++ )
    allGraphs( n, n > 3 || !H().thorough ? 1 : 3, [&] ( const Graph& g )
    {
      for( unsigned o = 0; o < 2; o++ ) for( unsigned ef = 0; ef < 2; ef++ )
      for( unsigned ids = 0; ids < 5; ids++ ) for( unsigned ew = 0; ew < 5; ew++ ) for( unsigned nw = 0; nw < 4; nw++ )
      {
        k++;
        if( ( n > 4 && k % 7 ) || ( !H().thorough && n > 3 && k % 7 ) ) continue;
        if( H().mine() ) gmlFile( g, { k % 2, k % 3, ( k / 2 ) % 3, o, ef, ( k / 5 ) % 2, ids, ew, nw } );
      }
    } );
}

static void gmlInvalid()
{
  io::GMLReader r;
  for( std::string brackets : { "]", "graph [\n]\n]", "graph [\nnode [\nid 0\n]\n]\n]", "]\ngraph [\n]" } )
  {
    H().setCase( "GML " + brackets );
    H().state();
    rejected( "gml-brackets", brackets, [&] { Complex K; r( file( brackets + "\n", ".gml" ), K ); } );
  }
  // All graphs with a missing or duplicate node
  for( unsigned n = 1; n <= 3; n++ )
    allGraphs( n, 1, [&] ( const Graph& g )
    {
      for( unsigned ids = 0; ids < 5; ids++ )
        for( unsigned i = 0; i < n; i++ )
          for( unsigned w = 0; w < 2; w++ )
          {
            if( !H().mine() ) continue;
            auto id = names( ids, n );
            std::ostringstream s, d;
            s << "graph [\n";
            for( unsigned j = 0; j < n; j++ ) if( j != i ) s << "node [\nid " << id[j] << "\n]\n";
            d << s.str() << "node [\nid " << id[i] << "\n]\nnode [\nid " << id[i] << "\n]\n";
            bool used = false;
            for( auto&& e : g.edges )
            {
              for( auto o : { &s, &d } )
              {
                *o << "edge [\nsource " << id[e.u] << "\ntarget " << id[e.v] << "\n";
                if( w ) *o << "weight 1\n";
                *o << "]\n";
              }
              used = used || e.u == i || e.v == i;
            }
            s << "]\n";
            d << "]\n";
            H().setCase( "GML\n" + s.str() );
            H().state();
            if( used ) rejected( "gml-unknown-node", s.str(), [&] { Complex K; r( file( s.str(), ".gml" ), K ); } );
            rejected( "gml-duplicate-node", d.str(), [&] { Complex K; r( file( d.str(), ".gml" ), K ); } );
          }
    } );
  rejected( "gml-missing", "missing file", [&] { Complex K; r( H().scratch + "/missing.gml", K ); } );
}

// Writing -------------------------------------------------------------

static void gmlWrite( const Graph& g, bool triangles, bool labels, bool data )
{
  H().state();
  H().guarded( "gml-writer", [&]
  {
    std::vector<Simplex> simplices;
    Content e;
    for( unsigned i = 0; i < g.n; i++ ) { simplices.push_back( Simplex( i + 1, g.weights[i] ) ); e.vertex( i + 1, 0 ); }
    for( auto&& d : g.edges ) { simplices.push_back( Simplex( { d.u + 1, d.v + 1 }, d.w ) ); e.edge( d.u + 1, d.v + 1, d.w ); }
    if( triangles && g.n > 2 ) simplices.push_back( Simplex( { 1u, 2u, 3u }, 5 ) );
    Complex K( simplices.begin(), simplices.end() );
    io::GMLWriter writer;
    std::vector<std::string> l;
    for( unsigned i = 0; i < g.n; i++ ) l.push_back( cat( "Label ", i ) );
    if( labels ) writer.setNodeLabels( l.begin(), l.end() );
    data ? writer.writeSimplexDataForVertices() : writer.writeSimplexDataForVertices( false );
    std::ostringstream out;
    writer( out, K );
    auto name = H().scratch + cat( "/written-", H().shard, ".gml" );
    writer( name, K );
    std::ifstream in( name );
    std::stringstream copy;
    copy << in.rdbuf();
    H().setCase( "GML writer\n" + out.str() );
    H().check( copy.str() == out.str(), "gml-writer-file", "contents of file and stream differ" );
    static const io::GMLReader pristine;
    io::GMLReader r = pristine;
    Complex L;
    r( name, L );
    compare( L, e, "gml-writer", out.str() );
    auto label = r.getNodeAttribute( "label" ), values = r.getNodeAttribute( "data" );
    for( unsigned i = 0; i < g.n; i++ )
    {
      H().check( label[cat( i + 1 )] == ( labels ? l[i] : "" ), "gml-writer-labels", "label of a vertex is wrong" );
      H().check( values[cat( i + 1 )] == ( data ? number( g.weights[i] ) : "" ), "gml-writer-data", "weight of a vertex is wrong" );
    }
    H().trace();
  } );
}

// Pajek ---------------------------------------------------------------

static void pajekFile( const Graph& g, unsigned labels, unsigned weights, unsigned keywords, unsigned noise, unsigned ids )
{
  static io::PajekReader reused;
  static const io::PajekReader pristine;
  static io::SimplicialComplexReader generic;
  std::vector<unsigned> v;
  std::vector<std::string> l;
  for( unsigned i = 0; i < g.n; i++ )
  {
    v.push_back( ids == 0 || !labels ? i + 1 : ids == 1 ? 2 + 7 * ( g.n - i ) : ( i % 2 ? 100 - i : 8 + i ) );
    l.push_back( labels == 2 && i % 2 ? "" : cat( "Label ", i ) );
  }
  static const char* vk[] = { "*Vertices", "*vertices", "*Verts" };
  static const char* ek[] = { "*Edges", "*arcs", "*EDGES" };
  std::ostringstream s;
  auto comment = [&] { if( noise == 1 ) s << "% comment 1 2\n"; if( noise == 2 ) s << "\n  % comment\n   \n"; };
  comment();
  if( noise ) s << "*Network graph\n";
  s << vk[keywords] << ( noise == 2 ? "   " : " " ) << g.n << "\n";
  comment();
  if( labels ) for( unsigned i = 0; i < g.n; i++ ) { s << ( noise == 2 ? "  " : "" ) << v[i] << " \"" << l[i] << "\"\n"; comment(); }
  bool section = !g.edges.empty() || noise == 1;
  if( section ) s << ek[keywords] << "\n";
  Content e;
  for( unsigned i = 0; i < g.n; i++ ) e.vertex( v[i], 0 );
  for( std::size_t k = 0; k < g.edges.size(); k++ )
  {
    auto&& d = g.edges[k];
    comment();
    if( k == 1 && keywords == 1 ) s << "*Edges\n";
    bool w = weights == 1 || ( weights == 2 && k % 2 );
    if( noise == 1 ) s << v[d.v] << "\t" << v[d.u]; else s << v[d.u] << " " << v[d.v];
    if( w ) s << " " << number( d.w );
    s << ( noise == 2 ? "  \n" : "\n" );
    e.edge( v[d.u], v[d.v], w ? d.w : 0 );
  }
  if( noise ) s << "*Edgeslist\n1 2 3\n";
  auto text = s.str();
  H().setCase( "Pajek\n" + text );
  H().state();
  H().guarded( "pajek", [&]
  {
    auto name = file( text, ".net" );
    io::PajekReader fresh = pristine;
    Complex K, L, M;
    fresh( name, K );
    compare( K, e, "pajek", text );
    std::ifstream in( name );
    reused( in, L );
    compare( L, e, "pajek-reuse", text );
    std::map<std::string, std::string> m;
    std::map<unsigned, std::string> ordered;
    if( labels ) for( unsigned i = 0; i < g.n; i++ ) { m[cat( v[i] )] = l[i]; ordered[v[i]] = l[i]; }
    H().check( fresh.getLabelMap() == m && reused.getLabelMap() == m, "pajek-labels", "labels are wrong" );
    generic( name, M );
    compare( M, e, "pajek-generic", text );
    std::vector<std::string> expected;
    for( auto&& p : ordered ) expected.push_back( p.second );
    H().check( generic.labels() == expected, "pajek-generic-labels", "labels do not match the vertices" );
    H().trace();
  } );
}

static void pajekFiles()
{
  for( unsigned n = 0; n <= ( H().thorough ? 5u : 4u ); n++ )
    allGraphs( n, n < 3 ? 2 : 1, [&] ( const Graph& g )
    {
      unsigned k = 0;
      for( unsigned labels = 0; labels < 3; labels++ ) for( unsigned weights = 0; weights < 3; weights++ ) for( unsigned keywords = 0; keywords < 3; keywords++ )
      for( unsigned noise = 0; noise < 3; noise++ ) for( unsigned ids = 0; ids < 3; ids++ )
      {
        if( n > 3 && k++ % ( H().thorough ? 5 : 11 ) ) continue;
        if( ( ids && !labels ) || !H().mine() ) continue;
        pajekFile( g, labels, weights, keywords, noise, ids );
      }
    } );
  io::PajekReader r;
  for( std::string text : { "*Vertices 3\n1 \"a\"\n2 \"b\"\n*Edges\n1 2\n", "*Vertices 2\n1 \"a\"\n1 \"b\"\n", "*Vertices\n", "*Vertices 2\n*Edges\n1\n", "*Vertices 2\n*Edges\na b\n", "*Vertices 2\n1 a\n" } )
  {
    H().setCase( "Pajek " + text );
    H().state();
    rejected( "pajek-invalid", text, [&] { Complex K; r( file( text, ".net" ), K ); } );
  }
  rejected( "pajek-missing", "missing file", [&] { Complex K; r( H().scratch + "/missing.net", K ); } );
}

// Edge lists ----------------------------------------------------------

static void edgeList( const Graph& g, unsigned ids, unsigned weights, unsigned separator, unsigned noise, bool read )
{
  static io::EdgeListReader reused;
  static io::SimplicialComplexReader generic;
  std::vector<std::vector<std::string>> all = { { "0", "1", "2", "3", "4" }, { "17", "3", "100", "42", "5" }, { "b", "A", "x1", "Z_2", "q" } };
  for( unsigned i = 5; i < g.n; i++ ) { all[0].push_back( cat( i ) ); all[1].push_back( cat( 200 + 7 * ( g.n - i ) ) ); all[2].push_back( cat( "v", i ) ); }
  static const char* sep[] = { " ", "\t", " \t  ", ":", "," };
  std::ostringstream s;
  auto comment = [&] { if( noise == 1 ) s << "# comment 1 2\n%\n"; if( noise == 2 ) s << "\n   \n*comment\n  \"comment\n"; };
  std::map<std::string, unsigned> index;
  Content e;
  comment();
  std::set<unsigned> used;
  auto vertex = [&] ( unsigned i )
  {
    auto&& name = all[ids][i];
    unsigned v = ids < 2 ? value( name ) : index.insert( { name, unsigned( index.size() ) } ).first->second;
    if( used.insert( v ).second ) e.vertex( v, 0 );
    return v;
  };
  for( std::size_t k = 0; k < g.edges.size(); k++ )
  {
    auto&& d = g.edges[k];
    unsigned a = ( k + noise ) % 2 ? d.v : d.u, b = ( k + noise ) % 2 ? d.u : d.v;
    bool w = weights == 1 || ( weights == 2 && k % 2 );
    for( unsigned copy = 0; copy < ( noise == 2 && k == 1 ? 2u : 1u ); copy++ )
    {
      s << ( noise == 2 ? "  " : "" ) << all[ids][a] << sep[separator] << all[ids][b];
      if( w ) s << sep[separator] << number( d.w );
      s << ( noise == 2 ? " \n" : k + 1 == g.edges.size() && noise == 0 ? "" : "\n" );
    }
    comment();
    unsigned u = vertex( a );
    unsigned v = vertex( b );
    e.edge( u, v, w && read ? d.w : 0 );
  }
  auto text = s.str();
  H().setCase( cat( "edge list with", read ? "" : "out", " weights\n", text ) );
  H().state();
  H().guarded( "edges", [&]
  {
    auto name = file( text, ".txt" );
    io::EdgeListReader fresh;
    for( auto r : { &fresh, &reused } )
    {
      read ? r->setReadWeights() : r->setReadWeights( false );
      r->setTrimLines();
      r->setSeparator( separator < 3 ? "[:space:]" : sep[separator] );
      Complex K;
      if( r == &fresh ) ( *r )( name, K );
      else { std::ifstream in( name ); ( *r )( in, K ); }
      compare( K, e, r == &fresh ? "edges" : "edges-reuse", text );
    }
    if( separator < 3 && read )
    {
      Complex K;
      generic( name, K );
      compare( K, e, "edges-generic", text );
      H().check( generic.labels().empty(), "edges-generic-labels", "edge list has labels" );
    }
    H().trace();
  } );
}

static void edgeLists()
{
  for( unsigned n = 2; n <= ( H().thorough ? 5u : 4u ); n++ )
    allGraphs( n, n < 4 && H().thorough ? 2 : 1, [&] ( const Graph& g )
    {
      unsigned k = 0;
      for( unsigned ids = 0; ids < 3; ids++ ) for( unsigned weights = 0; weights < 3; weights++ ) for( unsigned separator = 0; separator < 5; separator++ )
      for( unsigned noise = 0; noise < 3; noise++ ) for( bool read : { true, false } )
      {
        if( n > 3 && k++ % ( n > 4 ? 11 : H().thorough ? 1 : 7 ) ) continue;
        if( H().mine() ) edgeList( g, ids, weights, separator, noise, read );
      }
    } );
  io::EdgeListReader r;
  for( std::string text : { "0 1\n2\n", "a\n", "0 1 2\n  7  \n1 2\n" } )
  {
    H().setCase( "edge list " + text );
    H().state();
    rejected( "edges-invalid", text, [&] { Complex K; r( file( text, ".txt" ), K ); } );
  }
  rejected( "edges-missing", "missing file", [&] { Complex K; r( H().scratch + "/missing.txt", K ); } );
  rejected( "generic-missing", "missing file", [&] { Complex K; io::SimplicialComplexReader g; g( H().scratch + "/missing.gml", K ); } );
}

// GraphML -------------------------------------------------------------

struct XML { unsigned ids, nodeData, edgeData, readNodes, readEdges, layout, attribute; };

static void graphML( const Graph& g, const XML& x )
{
  static io::GraphMLReader reused;
  static const std::vector<std::vector<std::string>> all = { { "0", "1", "2", "3" }, { "n10", "n2", "n1", "a" }, { "12", "3", "100", "x" } };
  auto id = all[x.ids];
  for( unsigned i = 4; i < g.n; i++ ) id.push_back( x.ids == 0 ? cat( i ) : x.ids == 1 ? cat( "m", 100 - i ) : cat( 200 + 7 * i ) );
  id.resize( g.n );
  std::string attribute = x.attribute ? "size" : "weight";
  std::ostringstream s;
  if( x.layout != 1 ) s << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
  if( x.layout == 2 ) s << "<!-- comment -->\n";
  s << "<graphml xmlns=\"http://graphml.graphdrawing.org/xmlns\">\n";
  // The names of attributes are different from their keys, and attributes of
  // nodes and edges share their names
  if( x.nodeData ) s << "<key id=\"d0\" for=\"node\" attr.name=\"" << attribute << "\" attr.type=\"double\"/>\n";
  s << "<key id=\"d1\" for=\"node\" attr.name=\"other\" attr.type=\"string\"/>\n";
  if( x.edgeData ) s << "<key id=\"d2\" for=\"edge\" attr.name=\"" << attribute << "\" attr.type=\"double\"/>\n";
  s << "<graph id=\"G\" edgedefault=\"" << ( x.layout ? "directed" : "undirected" ) << "\">\n";
  bool nodeAttributes = false, edgeAttributes = false;
  auto hasNode = [&] ( unsigned i ) { return x.nodeData == 1 || ( x.nodeData == 2 && i % 2 ); };
  auto hasEdge = [&] ( std::size_t k ) { return x.edgeData == 1 || ( x.edgeData == 2 && k % 2 ); };
  auto nodes = [&]
  {
    for( unsigned k = 0; k < g.n; k++ )
    {
      unsigned i = x.layout == 1 ? g.n - 1 - k : k;
      s << "<node id=\"" << id[i] << "\">";
      if( x.layout == 2 ) s << "\n  <!-- 7 --><data key=\"d1\"></data>\n  <port/>";
      if( hasNode( i ) ) { s << "<data key=\"d0\">" << number( g.weights[i] ) << "</data>"; nodeAttributes = true; }
      s << "</node>\n";
      if( x.layout == 2 ) s << "<unknown><node id=\"99\"/></unknown>\n";
    }
  };
  auto edges = [&]
  {
    for( std::size_t k = 0; k < g.edges.size(); k++ )
    {
      auto&& e = g.edges[k];
      s << "<edge id=\"e" << k << "\" source=\"" << id[ x.layout ? e.v : e.u ] << "\" target=\"" << id[ x.layout ? e.u : e.v ] << "\"";
      if( hasEdge( k ) ) { s << ">\n  <data key=\"d2\">" << number( e.w ) << "</data>\n</edge>\n"; edgeAttributes = true; }
      else s << "/>\n";
    }
  };
  if( x.layout == 2 ) { edges(); nodes(); } else { nodes(); edges(); }
  s << "</graph>\n</graphml>\n";
  auto text = s.str();
  H().setCase( cat( "GraphML weights of nodes ", x.readNodes, " edges ", x.readEdges, "\n", text ) );
  H().state();
  H().guarded( "graphml", [&]
  {
    auto name = file( text, ".xml" );
    io::GraphMLReader fresh;
    for( auto r : { &fresh, &reused } )
      for( auto f : { maximum, minimum } )
      {
        r->setNodeWeightAttribute( attribute );
        r->setEdgeWeightAttribute( attribute );
        // By default, both kinds of weights are read
        if( r != &fresh || f != maximum || !x.readNodes ) x.readNodes ? r->setReadNodeWeights() : r->setReadNodeWeights( false );
        if( r != &fresh || f != maximum || !x.readEdges ) x.readEdges ? r->setReadEdgeWeights() : r->setReadEdgeWeights( false );
        H().check( r->readNodeWeights() == x.readNodes && r->readEdgeWeights() == x.readEdges, "graphml-configuration", "configuration is not stored" );
        Complex K;
        if( f == maximum ) ( *r )( name, K );
        else ( *r )( name, K, f );
        auto v = vertices( id, r->id_to_index<unsigned>(), false );
        Content e;
        std::vector<double> w;
        for( unsigned i = 0; i < g.n; i++ )
        {
          w.push_back( x.readNodes && hasNode( i ) ? g.weights[i] : 0 );
          e.vertex( v[i], w[i] );
        }
        for( std::size_t k = 0; k < g.edges.size(); k++ )
          e.edge( v[g.edges[k].u], v[g.edges[k].v], x.readEdges ? ( hasEdge( k ) ? g.edges[k].w : 0 ) : x.readNodes && x.nodeData ? f( w[g.edges[k].u], w[g.edges[k].v] ) : 0 );
        compare( K, e, r == &fresh ? "graphml" : "graphml-reuse", text );
        auto n = r->getNodeAttributeNames(), m = r->getEdgeAttributeNames();
        std::vector<std::string> en, em;
        if( nodeAttributes ) en.push_back( "d0" );
        if( x.layout == 2 && g.n ) en.push_back( "d1" );
        if( edgeAttributes ) em.push_back( "d2" );
        H().check( n == en && m == em, "graphml-attributes", "names of attributes are wrong" );
      }
    H().trace();
  } );
}

static void graphMLs()
{
  for( unsigned n = 0; n <= ( H().thorough ? 4u : 3u ); n++ )
    allGraphs( n, n < 3 ? 2 : 1, [&] ( const Graph& g )
    {
      unsigned k = 0;
      for( unsigned ids = 0; ids < 3; ids++ ) for( unsigned nd = 0; nd < 3; nd++ ) for( unsigned ed = 0; ed < 3; ed++ )
      for( unsigned rn = 0; rn < 2; rn++ ) for( unsigned re = 0; re < 2; re++ ) for( unsigned layout = 0; layout < 3; layout++ ) for( unsigned a = 0; a < 2; a++ )
      {
        if( n > 3 && k++ % 5 ) continue;
        if( H().mine() ) graphML( g, { ids, nd, ed, rn, re, layout, a } );
      }
    } );
  io::GraphMLReader r;
  std::string head = "<?xml version=\"1.0\"?>\n<graphml><key id=\"d0\" for=\"node\" attr.name=\"weight\"/>", tail = "</graphml>";
  for( std::string text : { std::string( "" ), std::string( "text" ), std::string( "<?xml version=\"1.0\"?>\n" ), std::string( "<?xml version=\"1.0\"?>\n<graph/>" ), head + tail, head + "<graph>", head + "<graph><node/></graph>" + tail,
                            head + "<graph><node id=\"0\"/><edge id=\"0\" source=\"0\"/></graph>" + tail, head + "<graph><node id=\"0\"/><edge id=\"0\" target=\"0\"/></graph>" + tail,
                            head + "<graph><node id=\"0\"/><edge id=\"0\" source=\"0\" target=\"1\"/></graph>" + tail,
                            head + "<graph><node id=\"0\"><data key=\"d0\">x</data></node></graph>" + tail,
                            head + "<graph><node id=\"0\"><data key=\"d0\"/></node></graph>" + tail } )
  {
    H().setCase( "GraphML " + text );
    H().state();
    r.setNodeWeightAttribute( "weight" );
    r.setReadNodeWeights();
    rejected( "graphml-invalid", text, [&] { Complex K; r( file( text, ".xml" ), K ); } );
  }
  rejected( "graphml-missing", "missing file", [&] { Complex K; r( H().scratch + "/missing.xml", K ); } );
}

// Labels of larger graphs ---------------------------------------------

static void larger()
{
  for( unsigned n = 9; n <= 13; n++ )
    for( unsigned start = 0; start < 3; start++ )
      for( unsigned reversed = 0; reversed < 2; reversed++ )
      {
        if( !H().mine() ) continue;
        std::ostringstream s, p;
        s << "graph [\n";
        p << "*Vertices " << n << "\n";
        for( unsigned k = 0; k < n; k++ )
        {
          unsigned i = ( reversed ? n - 1 - k : k ) + start;
          s << "node [\nid " << i << "\nlabel \"L" << i << "\"\n]\n";
          p << i << " \"L" << i << "\"\n";
        }
        s << "]\n";
        std::vector<std::string> labels;
        for( unsigned i = 0; i < n; i++ ) labels.push_back( cat( "L", i + start ) );
        for( bool g : { true, false } )
        {
          auto text = g ? s.str() : p.str();
          H().setCase( text );
          H().state();
          H().guarded( "labels", [&]
          {
            io::SimplicialComplexReader r;
            Complex K;
            r( file( text, g ? ".gml" : ".net" ), K );
            H().check( r.labels() == labels, "labels-order", "labels do not match the vertices" );
            H().check( K.size() == n, "labels-vertices", "wrong number of vertices" );
          } );
          H().trace();
        }
      }
}

static void largeFiles()
{
  largeGraphs( H().thorough ? 40 : 13, [&] ( const Graph& g, unsigned k )
  {
    for( unsigned s = 0; s < 5; s++ )
    {
      if( !H().mine() ) continue;
      gmlFile( g, { k % 2, ( k + s ) % 3, ( k / 2 ) % 3, ( k / 3 ) % 2, ( k + s ) % 2, ( k / 5 ) % 2, s, ( k / 3 ) % 5, ( k / 2 ) % 4 } );
      if( s < 3 )
      {
        pajekFile( g, ( k + s ) % 3, ( k / 2 ) % 3, k % 3, ( k / 3 ) % 3, ( k + s ) % 3 ? s : 0 );
        edgeList( g, s, ( k + s ) % 3, k % 5, ( k / 2 ) % 3, k % 7 != 0 );
        graphML( g, { s, ( k + s ) % 3, ( k / 2 ) % 3, k % 2, ( k / 2 ) % 2, ( k / 3 ) % 3, ( k / 5 ) % 2 } );
      }
      gmlWrite( g, s & 1, s & 2, s & 4 );
    }
  } );
}

void explore()
{
  largeFiles();
  gmlFiles();
  gmlInvalid();
  for( unsigned n = 0; n <= 4; n++ )
    allGraphs( n, 2, [&] ( const Graph& g )
    {
      if( !H().mine() ) return;
      for( unsigned k = 0; k < 8; k++ ) gmlWrite( g, k & 1, k & 2, k & 4 );
    } );
  pajekFiles();
  edgeLists();
  graphMLs();
  larger();
}
