// TikZ writer: all small complexes, all options. The picture is parsed and
// compared with the complex.

#include "points.hh"
#include "big.hh"

#include <aleph/topology/io/TikZ.hh>

#include <fstream>
#include <regex>
#include <set>
#include <sstream>

using namespace vf;

using S = aleph::topology::Simplex<double, unsigned>;
using K = aleph::topology::SimplicialComplex<S>;

struct Options
{
  bool labels = false, balls = false, triangles = false, colours = false;
};

static std::string squeeze( const std::string& s )
{
  std::string t;
  for( char c : s ) if( c != ' ' ) t += c;
  return t;
}

static void compare( const K& complex, const Points& P, const Options& o, const std::string& text )
{
  H().step();
  std::multiset<std::string> expected, actual;
  std::map<std::string, bool> defined;
  bool ok = true;

  std::istringstream in( text );
  std::string line;
  std::vector<std::string> lines;
  while( std::getline( in, line ) )
  {
    line = squeeze( line.substr( 0, line.find( '%' ) ) );
    if( !line.empty() ) lines.push_back( line );
  }
  ok = lines.size() >= 2 && lines.front() == "\\begin{tikzpicture}" && lines.back() == "\\end{tikzpicture}";
  H().check( ok, "tikz-frame", "the picture is not enclosed by its environment: " + text );
  if( !ok ) return;

  static const std::regex point   ( "\\\\coordinate(\\[label=[a-z]+:(\\d+)\\])?\\((\\d+)\\)at\\(([-0-9.e]+),([-0-9.e]+)\\);" );
  static const std::regex circle  ( "\\\\filldraw\\[(\\w+)\\]\\((\\d+)\\)circle\\(([0-9.]+)pt\\);" );
  static const std::regex ball    ( "\\\\fill\\[(\\w+),fillopacity=([0-9.]+)\\]\\((\\d+)\\)circle\\(([0-9.]+)cm\\);" );
  static const std::regex edge    ( "\\\\draw\\[(\\w+),linewidth=([0-9.]+)mm\\]\\((\\d+)\\)--\\((\\d+)\\);" );
  static const std::regex triangle( "\\\\fill\\[(\\w+),fillopacity=([0-9.]+)\\]\\((\\d+)\\)--\\((\\d+)\\)--\\((\\d+)\\)--cycle;" );

  for( std::size_t i = 1; i + 1 < lines.size(); i++ )
  {
    std::smatch m;
    auto&& l = lines[i];
    if( std::regex_match( l, m, point ) )
    {
      actual.insert( cat( "coordinate ", m[3].str(), " ", std::stod( m[4].str() ), " ", std::stod( m[5].str() ), m[1].matched ? " label " + m[2].str() : "" ) );
      defined[ m[3].str() ] = true;
    }
    else if( std::regex_match( l, m, circle ) )
    {
      actual.insert( cat( "point ", m[2].str(), " ", m[1].str(), " ", std::stod( m[3].str() ) ) );
      ok = ok && defined[ m[2].str() ];
    }
    else if( std::regex_match( l, m, ball ) )
    {
      actual.insert( cat( "ball ", m[3].str(), " ", std::stod( m[4].str() ) ) );
      ok = ok && defined[ m[3].str() ];
    }
    else if( std::regex_match( l, m, edge ) )
    {
      std::set<std::string> v = { m[3].str(), m[4].str() };
      actual.insert( cat( "edge ", v, " ", m[1].str() ) );
      for( auto&& x : v ) ok = ok && defined[x];
    }
    else if( std::regex_match( l, m, triangle ) )
    {
      std::set<std::string> v = { m[3].str(), m[4].str(), m[5].str() };
      actual.insert( cat( "triangle ", v, " ", m[1].str(), " ", std::stod( m[2].str() ) ) );
      for( auto&& x : v ) ok = ok && defined[x];
    }
    else H().fail( "tikz-line", "unexpected line: " + l );
  }
  H().check( ok, "tikz-undefined", "a coordinate is used before it is defined: " + text );

  for( auto&& s : complex )
  {
    std::set<std::string> v;
    for( auto x : s ) v.insert( str( x ) );
    auto u = *s.begin();
    if( s.dimension() == 0 )
    {
      expected.insert( cat( "coordinate ", u, " ", P[u][0], " ", P[u][1], o.labels ? " label " + str( u ) : "" ) );
      expected.insert( cat( "point ", u, " ", o.colours ? "red" : "black", " ", o.colours ? 2.5 : 1.0 ) );
      if( o.balls ) expected.insert( cat( "ball ", u, " ", 1.5 ) );
    }
    if( s.dimension() == 1 ) expected.insert( cat( "edge ", v, " ", o.colours ? "blue" : "black" ) );
    if( s.dimension() == 2 && o.triangles ) expected.insert( cat( "triangle ", v, " ", o.colours ? "green" : "black", " ", o.colours ? 0.75 : 0.2 ) );
  }
  H().check( actual == expected, "tikz-content", cat( "the picture differs from the complex: ", text ) );
}

void explore()
{
  bigComplexes( H().thorough ? 300 : 100, [&] ( const std::string& name, const Big& big )
  {
    for( unsigned order = 0; order < 4; order++ )
    {
      if( !H().mine() ) continue;
      H().setCase( cat( name, ", order ", order ) );
      if( H().skip() ) continue;
      H().state();
      H().guarded( "tikz-large", [&]
      {
        // Vertices first, because coordinates have to be defined before use
        auto complex = bigComplex<K>( ordered( big, order ) );
        Points P;
        unsigned last = 0;
        for( auto&& f : big ) for( auto v : f ) last = std::max( last, v );
        for( unsigned v = 0; v <= last; v++ ) P.push_back( { double( v ) / 4, double( v * 7 % 11 ) - 5 } );
        Options o;
        o.labels = order & 1; o.triangles = order & 2;
        aleph::topology::io::TikZ writer;
        writer.showVertexLabels( o.labels );
        writer.showTriangles( o.triangles );
        std::ostringstream out;
        writer( out, complex, P );
        compare( complex, P, o, out.str() );
      } );
      H().trace();
    }
  } );

  unsigned N = H().thorough ? 5 : 4;
  std::vector<double> values = { 0, -1.5, 2 };

  for( auto&& C : allComplexes( N ) )
  {
    if( !H().mine() ) continue;
    for( unsigned variant = 0; variant < ( N > 4 ? 1 : 3 ); variant++ )
    {
      Points P;
      for( unsigned v = 0; v < N; v++ ) P.push_back( { values[ ( v + variant ) % 3 ], values[ ( v * variant ) % 3 ], 7.0 } );
      for( unsigned bits = 0; bits < 16; bits++ )
      {
        Options o;
        o.labels = bits & 1; o.balls = bits & 2; o.triangles = bits & 4; o.colours = bits & 8;
        H().setCase( cat( "complex ", strOrder( C ), " variant ", variant, " options ", bits ) );
        if( H().skip() ) continue;
        H().sample();
        H().state();
        auto complex = toComplex<K>( C );
        H().guarded( "tikz", [&]
        {
          aleph::topology::io::TikZ writer;
          if( bits & 1 ) writer.showVertexLabels( true );
          if( bits & 2 ) { writer.showBalls( true ); writer.ballRadius( 1.5 ); }
          if( bits & 4 ) writer.showTriangles( true );
          if( bits & 8 ) { writer.pointColour( "red" ); writer.pointSize( 2.5 ); writer.lineColour( "blue" ); writer.triangleColour( "green" ); writer.triangleOpacity( 0.75 ); }
          H().check( writer.showVertexLabels() == o.labels && writer.showBalls() == o.balls && writer.showTriangles() == o.triangles && writer.ballRadius() == ( o.balls ? 1.5 : 0.0 ), "tikz-options", "options are not reported" );
          std::ostringstream out;
          writer( out, complex, P );
          compare( complex, P, o, out.str() );
          if( bits == 15 )
          {
            auto pc = toCloud<double>( P, 3 );
            auto file = cat( H().scratch, "/picture", H().shard, ".tex" );
            writer( file, complex, pc );
            std::ifstream f( file );
            std::stringstream s;
            s << f.rdbuf();
            compare( complex, P, o, s.str() );
          }
        } );
      }
    }
    // Errors
    Points line( N, Pt( 1 ) );
    std::vector<S> vertices;
    for( auto m : C ) if( ( m & ( m - 1 ) ) == 0 ) vertices.push_back( S( unsigned( __builtin_ctz( m ) ) ) );
    K complex( vertices.begin(), vertices.end() );
    bool thrown = false;
    std::ostringstream out;
    try { aleph::topology::io::TikZ()( out, complex, line ); } catch( std::runtime_error& ) { thrown = true; }
    H().check( thrown == !vertices.empty(), "tikz-dimension", "missing coordinates are not reported" );
    thrown = false;
    try { aleph::topology::io::TikZ()( H().scratch + "/missing/directory/file.tex", complex, Points( N, Pt( 2 ) ) ); } catch( std::runtime_error& ) { thrown = true; }
    H().check( thrown, "tikz-file", "a file that cannot be written is not reported" );
  }
}
