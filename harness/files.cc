// Readers for meshes, grids, triangulations, functions and spectra: all small
// data sets in different layouts.

#include "common.hh"

#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>

#include <aleph/topology/representations/Set.hh>
#include <aleph/topology/representations/Vector.hh>

#include <aleph/topology/io/FlexSpectrum.hh>
#include <aleph/topology/io/Function.hh>
#include <aleph/topology/io/HDF5.hh>
#include <aleph/topology/io/LexicographicTriangulation.hh>
#include <aleph/topology/io/LinesAndPoints.hh>
#include <aleph/topology/io/PLY.hh>
#include <aleph/topology/io/SimplicialComplexReader.hh>
#include <aleph/topology/io/VTK.hh>

#include <fstream>
#include <map>
#include <set>
#include <sstream>

using namespace vf;
namespace io = aleph::topology::io;

using Simplex = aleph::topology::Simplex<double, unsigned>;
using Complex = aleph::topology::SimplicialComplex<Simplex>;
using Content = std::map<std::vector<unsigned>, double>;

static std::string show( const Content& c )
{
  std::ostringstream s;
  for( auto&& p : c ) { for( auto&& v : p.first ) s << v << "."; s << ":" << p.second << " "; }
  return s.str();
}

static void compare( const Complex& K, const Content& e, const char* key, int sorted = 0 )
{
  Content c;
  bool duplicates = false, ordered = true, first = true;
  double last = 0;
  for( auto&& s : K )
  {
    std::vector<unsigned> v( s.begin(), s.end() );
    std::sort( v.begin(), v.end() );
    if( !c.insert( { v, s.data() } ).second ) duplicates = true;
    if( !first && sorted * s.data() < sorted * last ) ordered = false;
    first = false;
    last  = s.data();
  }
  H().step();
  H().check( !duplicates && show( c ) == show( e ), key, cat( "expected ", show( e ), ", got ", show( c ) ) );
  H().check( ordered, key, cat( "simplices are not sorted by weight for ", show( e ) ) );
}

template <class F> static void rejected( const char* key, F f )
{
  bool thrown = false;
  try { f(); } catch( std::exception& ) { thrown = true; }
  H().check( thrown, key, "invalid file is not rejected" );
  H().step();
}

static std::string file( const std::string& text, const std::string& extension )
{
  auto name = H().scratch + cat( "/file-", H().shard, extension );
  std::ofstream( name, std::ios::binary ) << text;
  return name;
}

static double maximum( double a, double b ) { return std::max( a, b ); }
static double minimum( double a, double b ) { return std::min( a, b ); }

// PLY -----------------------------------------------------------------

static std::string ply( unsigned n, const std::vector<std::vector<unsigned>>& faces, const std::vector<double>& w, unsigned order, unsigned layout, unsigned lines = 1000 )
{
  static const std::vector<std::vector<std::string>> orders = { { "x", "y", "z" }, { "quality", "z", "y", "x" }, { "x", "y", "z", "red", "quality" } };
  std::vector<std::string> l;
  l.push_back( "ply" );
  l.push_back( "format ascii 1.0" );
  if( layout == 1 ) l.push_back( "comment element vertex 7" );
  l.push_back( cat( "element vertex ", n ) );
  for( auto&& p : orders[order] ) l.push_back( cat( "property ", p == "red" ? "uchar" : layout == 1 ? "double" : "float", " ", p ) );
  if( layout == 1 ) l.push_back( "obj_info generated" );
  l.push_back( cat( "element face ", faces.size() ) );
  l.push_back( layout == 1 ? "property list uint8 int32 vertex_indices" : "property list uchar int vertex_index" );
  if( layout == 1 ) l.push_back( "comment" );
  l.push_back( "end_header" );
  for( unsigned i = 0; i < n; i++ )
  {
    std::ostringstream s;
    for( auto&& p : orders[order] )
    {
      if( &p != &orders[order][0] ) s << ( layout == 2 ? "  " : " " );
      if( p == "z" ) s << w[i];
      else if( p == "quality" ) s << -2 * w[i] - 1;
      else if( p == "red" ) s << 255 - i;
      else s << 100 + i;
    }
    if( layout == 2 ) s << " ";
    l.push_back( s.str() );
  }
  for( std::size_t k = 0; k < faces.size(); k++ )
  {
    std::ostringstream s;
    s << faces[k].size();
    for( std::size_t j = 0; j < faces[k].size(); j++ ) s << " " << faces[k][( j + k + layout ) % faces[k].size()];
    l.push_back( s.str() );
  }
  std::string r;
  for( std::size_t i = 0; i < std::min<std::size_t>( l.size(), lines ); i++ ) r += l[i] + ( layout == 2 ? "\r\n" : "\n" );
  return r;
}

// Binary variant; types of properties and faces are varied
static void append( std::string& r, const std::string& type, double x, bool big )
{
  auto put = [&] ( const void* p, std::size_t n )
  {
    auto c = static_cast<const char*>( p );
    std::string s( c, c + n );
    if( big ) std::reverse( s.begin(), s.end() );
    r += s;
  };
  if( type == "double" )                           { double v = x; put( &v, 8 ); }
  else if( type == "float" )                       { float v = float( x ); put( &v, 4 ); }
  else if( type == "int" || type == "int32" )      { int v = int( x ); put( &v, 4 ); }
  else if( type == "uint" || type == "uint32" )    { unsigned v = unsigned( x ); put( &v, 4 ); }
  else if( type == "short" )                       { short v = short( x ); put( &v, 2 ); }
  else if( type == "ushort" )                      { unsigned short v = static_cast<unsigned short>( x ); put( &v, 2 ); }
  else if( type == "char" )                        { signed char v = static_cast<signed char>( x ); put( &v, 1 ); }
  else                                             { unsigned char v = static_cast<unsigned char>( x ); put( &v, 1 ); }
}

static std::string plyBinary( unsigned n, const std::vector<std::vector<unsigned>>& faces, const std::vector<double>& w, unsigned order, bool big, const std::string& type, const std::string& unsignedType, const std::string& size, const std::string& entry )
{
  static const std::vector<std::vector<std::string>> orders = { { "x", "y", "z" }, { "quality", "z", "y", "x" }, { "x", "y", "z", "red", "quality" } };
  std::string r = cat( "ply\nformat binary_", big ? "big" : "little", "_endian 1.0\ncomment binary\nelement vertex ", n, "\n" );
  for( auto&& p : orders[order] ) r += cat( "property ", p == "red" ? unsignedType : p == "x" ? "double" : type, " ", p, "\n" );
  r += cat( "element face ", faces.size(), "\nproperty list ", size, " ", entry, " vertex_indices\nend_header\n" );
  for( unsigned i = 0; i < n; i++ )
    for( auto&& p : orders[order] )
    {
      if( p == "red" ) append( r, unsignedType, 255 - i, big );
      else append( r, p == "x" ? "double" : type, p == "z" ? w[i] : p == "quality" ? -2 * w[i] - 1 : 10 + i, big );
    }
  for( auto&& f : faces )
  {
    append( r, size, double( f.size() ), big );
    for( auto v : f ) append( r, entry, v, big );
  }
  return r;
}

static const std::vector<std::vector<unsigned>> Triangles = { { 0, 1, 2 }, { 3, 1, 0 }, { 0, 2, 3 }, { 2, 1, 3 } };

static std::string hexadecimal( const std::string& s )
{
  std::ostringstream o;
  auto pos = s.find( "end_header\n" );
  pos = pos == std::string::npos ? s.size() : pos + 11;
  o << s.substr( 0, pos ) << std::hex;
  for( auto i = pos; i < s.size(); i++ ) o << ( static_cast<unsigned char>( s[i] ) >> 4 ) << ( static_cast<unsigned char>( s[i] ) & 15 ) << " ";
  return o.str();
}

static void plyBinaryFiles()
{
  static io::PLYReader reused;
  static const char* types[]    = { "double", "float", "int", "int32", "short", "char" };
  static const char* unsigneds[] = { "uint", "uint32", "ushort", "uchar", "uint8", "uchar" };
  static const char* sizes[]    = { "uchar", "uint8", "int", "ushort", "char", "uint" };
  static const char* entries[]  = { "int", "uint", "short", "uchar", "int32", "uint32" };
  static const char* properties[] = { "z", "quality", "red" };
  for( unsigned n = 0; n <= 4; n++ )
    for( unsigned mask = 0; mask < ( n < 3 ? 1u : n < 4 ? 2u : 16u ); mask++ )
      forAllVectors( n, 3, [&] ( const std::vector<unsigned>& v )
      {
        for( unsigned order = 0; order < 3; order++ ) for( unsigned t = 0; t < 6; t++ ) for( unsigned l = 0; l < 6; l++ ) for( unsigned p = 0; p < 3; p++ ) for( unsigned big = 0; big < 2; big++ )
        {
          if( !H().mine() ) continue;
          if( n >= 3 && !H().thorough && ( mask + v[0] + 2 * v[1] + v[2] + order + t + 2 * l + p + big ) % ( n == 3 ? 4 : 61 ) ) continue;
          std::vector<double> w, d;
          for( unsigned i : v ) w.push_back( std::vector<double>{ -1, t < 2 ? 0.5 : 17, 3 }[i] );
          for( unsigned i = 0; i < n; i++ ) d.push_back( p == 0 ? w[i] : p == 1 && order ? -2 * w[i] - 1 : p == 2 && order == 2 ? 255. - i : 0 );
          std::vector<std::vector<unsigned>> faces;
          for( unsigned k = 0; k < 4; k++ ) if( mask >> k & 1 ) faces.push_back( Triangles[k] );
          auto text = plyBinary( n, faces, w, order, big, types[t], unsigneds[t], sizes[l], entries[l] );
          H().setCase( cat( "property ", properties[p], "\n", hexadecimal( text ) ) );
          H().state();
          H().guarded( "ply-binary", [&]
          {
            Content e;
            for( unsigned i = 0; i < n; i++ ) e[{ i }] = d[i];
            for( auto f : faces )
            {
              std::sort( f.begin(), f.end() );
              e[f] = std::max( { d[f[0]], d[f[1]], d[f[2]] } );
              for( unsigned i = 0; i < 3; i++ ) for( unsigned j = i + 1; j < 3; j++ ) e[{ f[i], f[j] }] = std::max( d[f[i]], d[f[j]] );
            }
            auto name = file( text, ".ply" );
            io::PLYReader fresh;
            Complex K, L;
            fresh.setDataProperty( properties[p] );
            fresh( name, K );
            compare( K, e, "ply-binary", 1 );
            reused.setDataProperty( properties[p] );
            reused( name, L );
            compare( L, e, "ply-binary", 1 );
            H().sample();
          } );
          H().trace();
        }
      } );
  for( unsigned t = 0; t < 6; t++ ) for( unsigned big = 0; big < 2; big++ )
  {
    auto full = plyBinary( 4, Triangles, { 1, 2, 3, 4 }, 2, big, types[t], unsigneds[t], sizes[t], entries[t] );
    for( std::size_t n = 0; n < full.size(); n++ )
    {
      if( !H().mine() ) continue;
      H().setCase( "truncated\n" + hexadecimal( full.substr( 0, n ) ) );
      H().state();
      rejected( "ply-truncated", [&] { io::PLYReader r; Complex K; r( file( full.substr( 0, n ), ".ply" ), K ); } );
    }
    for( std::vector<unsigned> f : { std::vector<unsigned>{ 0, 1, 2, 3 }, { 0, 1 }, { 0, 1, 4 }, { 5, 1, 2 } } )
    {
      auto text = plyBinary( 4, { f }, { 1, 2, 3, 4 }, 2, big, types[t], unsigneds[t], sizes[t], entries[t] );
      H().setCase( "invalid face\n" + hexadecimal( text ) );
      H().state();
      rejected( "ply-face", [&] { io::PLYReader r; Complex K; r( file( text, ".ply" ), K ); } );
    }
  }
}

static void plyFiles()
{
  static io::PLYReader reused;
  static io::SimplicialComplexReader generic;
  static const double values[] = { -1, 0.5, 3 };
  static const char* properties[] = { "z", "quality", "", "unknown" };
  for( unsigned n = 0; n <= 4; n++ )
    for( unsigned mask = 0; mask < ( n < 3 ? 1u : n < 4 ? 2u : 16u ); mask++ )
      forAllVectors( n, 3, [&] ( const std::vector<unsigned>& v )
      {
        for( unsigned order = 0; order < 3; order++ ) for( unsigned layout = 0; layout < 3; layout++ ) for( unsigned p = 0; p < 4; p++ )
        {
          if( !H().mine() ) continue;
          if( n == 4 && !H().thorough && ( mask + order + 2 * layout + v[0] + v[1] + v[3] + p ) % 5 ) continue;
          std::vector<double> w;
          for( unsigned i : v ) w.push_back( values[i] );
          std::vector<std::vector<unsigned>> faces;
          for( unsigned k = 0; k < 4; k++ ) if( mask >> k & 1 ) faces.push_back( Triangles[k] );
          auto t = ply( n, faces, w, order, layout );
          H().setCase( cat( "property ", properties[p], "\n", t ) );
          H().state();
          H().guarded( "ply", [&]
          {
            std::vector<double> d;
            for( unsigned i = 0; i < n; i++ ) d.push_back( p == 0 ? w[i] : p == 1 && order ? -2 * w[i] - 1 : 0 );
            Content e;
            for( unsigned i = 0; i < n; i++ ) e[{ i }] = d[i];
            for( auto f : faces )
            {
              std::sort( f.begin(), f.end() );
              e[f] = std::max( { d[f[0]], d[f[1]], d[f[2]] } );
              for( unsigned i = 0; i < 3; i++ ) for( unsigned j = i + 1; j < 3; j++ ) e[{ f[i], f[j] }] = std::max( d[f[i]], d[f[j]] );
            }
            auto name = file( t, ".ply" );
            io::PLYReader fresh;
            Complex K, L, M;
            if( p ) fresh.setDataProperty( properties[p] );
            fresh( name, K );
            compare( K, e, "ply", 1 );
            reused.setDataProperty( properties[p] );
            std::ifstream in( name );
            reused( in, L );
            compare( L, e, "ply-reuse", 1 );
            if( p != 2 )
            {
              generic.setDataAttribute( properties[p] );
              H().check( generic.dataAttribute() == properties[p], "ply-generic", "attribute is not stored" );
              generic( name, M );
              compare( M, e, "ply-generic", 1 );
              generic.setDataAttribute( "" );
            }
            H().sample();
          } );
          H().trace();
        }
      } );
  // Fans and strips with many vertices, as text and binary
  for( unsigned n = 5; n <= ( H().thorough ? 120u : 40u ); n++ )
    for( unsigned kind = 0; kind < 3; kind++ ) for( unsigned p = 0; p < 2; p++ )
    {
      if( !H().mine() ) continue;
      std::vector<double> w, d;
      std::vector<std::vector<unsigned>> faces;
      for( unsigned i = 0; i < n; i++ )
      {
        w.push_back( kind == 0 ? double( i ) : kind == 1 ? double( i * 37 % 101 ) - 50 : double( n - i ) );
        d.push_back( p ? -2 * w[i] - 1 : w[i] );
        if( kind == 0 && i > 1 ) faces.push_back( { 0, i - 1, i } );
        if( kind == 1 && i > 1 ) faces.push_back( { i, i - 2, i - 1 } );
        if( kind == 2 && i % 3 == 2 ) faces.push_back( { i - 1, i, i - 2 } );
      }
      Content e;
      for( unsigned i = 0; i < n; i++ ) e[{ i }] = d[i];
      for( auto f : faces )
      {
        std::sort( f.begin(), f.end() );
        e[f] = std::max( { d[f[0]], d[f[1]], d[f[2]] } );
        for( unsigned i = 0; i < 3; i++ ) for( unsigned j = i + 1; j < 3; j++ ) e[{ f[i], f[j] }] = std::max( d[f[i]], d[f[j]] );
      }
      for( unsigned k = 0; k < 5; k++ )
      {
        auto t = k < 3 ? ply( n, faces, w, 1 + p, k ) : plyBinary( n, faces, w, 1 + p, k == 4, k == 3 ? "float" : "short", "ushort", "uchar", k == 3 ? "int" : "uchar" );
        H().setCase( cat( "large ", n, " kind ", kind, " property ", properties[p], " variant ", k ) );
        H().state();
        H().guarded( "ply-large", [&]
        {
          io::PLYReader fresh;
          Complex K;
          fresh.setDataProperty( properties[p] );
          fresh( file( t, ".ply" ), K );
          compare( K, e, "ply-large", 1 );
        } );
        H().trace();
      }
    }
  // Truncated files and invalid faces
  for( unsigned layout = 0; layout < 3; layout++ ) for( unsigned order = 0; order < 3; order++ )
  {
    std::vector<double> w = { 1, 2, 3, 4 };
    auto full = ply( 4, Triangles, w, order, layout );
    unsigned total = unsigned( std::count( full.begin(), full.end(), '\n' ) );
    for( unsigned lines = 0; lines < total; lines++ )
    {
      auto t = ply( 4, Triangles, w, order, layout, lines );
      H().setCase( "truncated\n" + t );
      H().state();
      rejected( "ply-truncated", [&] { io::PLYReader r; Complex K; r( file( t, ".ply" ), K ); } );
    }
    for( std::vector<unsigned> f : { std::vector<unsigned>{ 0, 1, 2, 3 }, { 0, 1 }, { 0, 1, 4 }, { 5, 1, 2 } } )
    {
      auto t = ply( 4, { f }, w, order, layout );
      H().setCase( "invalid face\n" + t );
      H().state();
      rejected( "ply-face", [&] { io::PLYReader r; Complex K; r( file( t, ".ply" ), K ); } );
    }
  }
  rejected( "ply-missing", [&] { io::PLYReader r; Complex K; r( H().scratch + "/missing.ply", K ); } );
}

// VTK -----------------------------------------------------------------

static std::string vtk( unsigned nx, unsigned ny, unsigned nz, const std::vector<double>& w, unsigned layout, unsigned points, unsigned data, const std::string& scalars, const std::string& table = "LOOKUP_TABLE default" )
{
  std::ostringstream s;
  std::string end = layout == 2 ? "  \r\n" : layout == 3 ? " \n\n" : "\n";
  s << ( layout == 1 ? "#  vtk  DataFile   Version 3.0" : "# vtk DataFile Version 2.0" ) << "\nheader\nASCII" << ( layout == 2 ? " " : "" ) << "\nDATASET STRUCTURED_GRID\n"
    << "DIMENSIONS " << nx << " " << ny << "  " << nz << "\nPOINTS " << points << " " << ( layout == 1 ? "double" : layout == 2 ? "unsigned_char" : "float" ) << "\n";
  if( layout == 3 ) s << "\n";
  for( unsigned i = 0; i < points; i++ ) s << i % nx << " " << i << ( layout == 1 ? "\n" : " " ) << "0.5" << ( layout == 1 || i + 1 == points ? end : "  " );
  s << "POINT_DATA " << data << end;
  s << scalars << end << table << end;
  for( std::size_t i = 0; i < w.size(); i++ ) s << w[i] << ( layout == 1 || i + 1 == w.size() || ( layout == 2 && i % 2 ) ? end : " " );
  return s.str();
}

static void vtkFiles()
{
  static io::VTKStructuredGridReader reused;
  static io::SimplicialComplexReader generic;
  static const double values[] = { -1, 0.5, 3, 1e-3 };
  static const char* names[] = { "SCALARS scalars double", "SCALARS my_scalars float 1", "SCALARS a.b-c unsigned_int   1" };
  static const char* name_[] = { "scalars", "my_scalars", "a.b-c" };
  static const char* type_[] = { "double", "float", "unsigned_int" };
  static const std::size_t size[] = { sizeof( float ), sizeof( double ), sizeof( char ), sizeof( float ) };
  unsigned k = 0;
  std::vector<std::vector<unsigned>> grids = { { 7, 5, 1 }, { 4, 6, 3 }, { 12, 1, 1 }, { 1, 1, 15 }, { 2, 9, 4 }, { 10, 11, 1 }, { 1, 17, 2 }, { 5, 5, 5 } };
  for( unsigned nx = 1; nx <= 3; nx++ ) for( unsigned ny = 1; ny <= 3; ny++ ) for( unsigned nz = 1; nz <= 3; nz++ ) grids.push_back( { nx, ny, nz } );
  for( auto&& size_ : grids )
  {
    unsigned nx = size_[0], ny = size_[1], nz = size_[2];
    unsigned n = nx * ny * nz;
    // Few values for small grids, some patterns for large ones
    std::vector<std::vector<double>> all;
    if( n <= 4 ) forAllVectors( n, 3, [&] ( const std::vector<unsigned>& v ) { std::vector<double> w; for( unsigned i : v ) w.push_back( values[i] ); all.push_back( w ); } );
    else for( unsigned p = 0; p < ( H().thorough ? 64u : 12u ); p++ )
    {
      std::vector<double> w;
      for( unsigned i = 0; i < n; i++ ) w.push_back( p < 2 ? ( p ? -1.0 : 1.0 ) * i : values[( i * i * p + i * ( p / 3 ) + p ) % 4] + i % p );
      all.push_back( w );
    }
    for( auto&& w : all ) for( unsigned layout = 0; layout < 4; layout++ ) for( unsigned scalars = 0; scalars < 3; scalars++ )
    {
      if( n > 2 && ++k % 3 ) continue;
      if( !H().mine() ) continue;
      auto t = vtk( nx, ny, nz, w, layout, n, n, names[scalars] );
      H().setCase( t );
      H().state();
      H().guarded( "vtk", [&]
      {
        Content e, f;
        auto add = [&] ( unsigned i, unsigned j ) { e[{ i, j }] = std::max( w[i], w[j] ); f[{ i, j }] = std::min( w[i], w[j] ); };
        for( unsigned z = 0; z < nz; z++ ) for( unsigned y = 0; y < ny; y++ ) for( unsigned x = 0; x < nx; x++ )
        {
          unsigned i = ( z * ny + y ) * nx + x;
          e[{ i }] = f[{ i }] = w[i];
          if( x + 1 < nx ) add( i, i + 1 );
          if( y + 1 < ny ) add( i, i + nx );
          if( z + 1 < nz ) add( i, i + nx * ny );
        }
        auto name = file( t, ".vtk" );
        io::VTKStructuredGridReader fresh;
        Complex K;
        fresh( name, K );
        compare( K, e, "vtk" );
        std::ifstream in( name );
        reused( in, K, minimum );
        compare( K, f, "vtk-functor" );
        for( auto r : { &fresh, &reused } )
          H().check( r->scalarsName() == name_[scalars] && r->scalarsType() == type_[scalars] && r->dataTypeSize() == size[layout], "vtk-attributes",
                     cat( "attributes are ", r->scalarsName(), " ", r->scalarsType(), " ", r->dataTypeSize() ) );
        if( layout % 2 ) { generic( name, K ); compare( K, e, "vtk-generic" ); }
        else { generic( name, K, minimum ); compare( K, f, "vtk-generic-functor" ); }
      } );
      H().trace();
    }
  }
  // Every data type of the coordinates
  const std::vector< std::pair<std::string, std::size_t> > types = { { "double", sizeof( double ) }, { "float", sizeof( float ) }, { "long", sizeof( long ) },
    { "unsigned_long", sizeof( long ) }, { "int", sizeof( int ) }, { "unsigned_int", sizeof( int ) }, { "short", sizeof( short ) }, { "unsigned_short", sizeof( short ) },
    { "char", 1 }, { "unsigned_char", 1 }, { "bit", sizeof( bool ) } };
  for( auto&& type : types )
  {
    std::string t = vtk( 3, 2, 1, { 3, -1, 2, 0, 5, 4 }, 0, 6, 6, "SCALARS s " + type.first );
    t.replace( t.find( "float", t.find( "POINTS" ) ), 5, type.first );
    H().setCase( t );
    H().state();
    H().guarded( "vtk", [&]
    {
      std::ifstream in( file( t, ".vtk" ) );
      Complex K;
      reused( in, K, minimum );
      H().check( K.size() == 13, "vtk", cat( K.size(), " simplices" ) );
      H().check( reused.dataTypeSize() == type.second && reused.scalarsType() == type.first && reused.scalarsName() == "s", "vtk-attributes",
                 cat( "attributes are ", reused.scalarsName(), " ", reused.scalarsType(), " ", reused.dataTypeSize() ) );
    } );
    H().trace();
  }
  auto invalid = [&] ( const char* key, const std::string& t )
  {
    H().setCase( cat( key, "\n", t ) );
    H().state();
    rejected( key, [&] { io::VTKStructuredGridReader r; Complex K; r( file( t, ".vtk" ), K ); } );
  };
  for( unsigned layout = 0; layout < 4; layout++ )
  {
    for( unsigned nx = 1; nx <= 3; nx++ ) for( unsigned ny = 1; ny <= 2; ny++ )
      for( unsigned m = 1; m <= 7; m++ )
      {
        unsigned n = nx * ny;
        if( m == n ) continue;
        invalid( "vtk-values", vtk( nx, ny, 1, std::vector<double>( m, 1.5 ), layout, n, n, names[0] ) );
        invalid( "vtk-data", vtk( nx, ny, 1, std::vector<double>( n, 1.5 ), layout, n, m, names[0] ) );
        invalid( "vtk-points", vtk( nx, ny, 1, std::vector<double>( m, 1.5 ), layout, m, m, names[0] ) );
      }
    invalid( "vtk-components", vtk( 2, 1, 1, { 1, 2 }, layout, 2, 2, "SCALARS scalars double 2" ) );
    invalid( "vtk-table", vtk( 2, 1, 1, { 1, 2 }, layout, 2, 2, names[0], "LOOKUP_TABLE my_table" ) );
    invalid( "vtk-table", vtk( 2, 1, 1, { 1, 2 }, layout, 2, 2, names[0], "LOOKUP_TABLE other" ) );
  }
  rejected( "vtk-missing", [&] { io::VTKStructuredGridReader r; Complex K; r( H().scratch + "/missing.vtk", K ); } );
}

// Triangulations ------------------------------------------------------

static void triangulations( const std::vector<std::vector<std::vector<unsigned>>>& all, int gap, const std::string& white, bool stray )
{
  static io::LexicographicTriangulationReader reused;
  std::ostringstream s;
  int position = 0;
  auto token = [&] ( const std::string& t ) { s << t; if( gap == position++ || gap == -2 ) s << white; };
  for( std::size_t k = 0; k < all.size(); k++ )
  {
    if( stray ) s << "# comment=[[1,2]]\n\nSome text\n";
    token( cat( "manifold_", k ) );
    token( "=" );
    token( "[" );
    for( std::size_t i = 0; i < all[k].size(); i++ )
    {
      if( i ) token( "," );
      token( "[" );
      for( std::size_t j = 0; j < all[k][i].size(); j++ )
      {
        if( j ) token( "," );
        token( cat( all[k][i][j] ) );
      }
      token( "]" );
    }
    s << "]\n";
  }
  if( stray ) s << "end";
  auto t = s.str();
  H().setCase( "triangulations\n" + t );
  H().state();
  H().guarded( "triangulation", [&]
  {
    io::LexicographicTriangulationReader fresh;
    for( auto r : { &fresh, &reused } )
    {
      std::vector<Complex> K( 3 );
      if( r == &fresh ) { std::istringstream in( t ); ( *r )( in, K ); }
      else ( *r )( file( t, ".txt" ), K );
      H().check( K.size() == all.size(), "triangulation-count", cat( "number of triangulations is ", K.size() ) );
      for( std::size_t k = 0; k < std::min( K.size(), all.size() ); k++ )
      {
        Content e;
        for( auto v : all[k] ) { std::sort( v.begin(), v.end() ); e[v] = 0; }
        compare( K[k], e, "triangulation" );
      }
    }
  } );
  H().trace();
}

static void triangulationFiles()
{
  std::vector<std::vector<std::vector<unsigned>>> complexes;
  std::vector<std::vector<unsigned>> simplices = { { 1, 2, 3 }, { 10, 2 }, { 4, 11, 120, 3 }, { 7 }, { 2, 3, 4 } };
  for( unsigned mask = 1; mask < 32; mask++ )
  {
    std::vector<std::vector<unsigned>> c;
    for( unsigned k = 0; k < 5; k++ ) if( mask >> k & 1 ) c.push_back( simplices[k] );
    complexes.push_back( c );
  }
  for( auto&& c : complexes )
  {
    int tokens = 3;
    for( auto&& s : c ) tokens += 2 * int( s.size() ) + 2;
    for( int gap = -2; gap < tokens; gap++ )
      for( std::string white : { " ", "\t  ", "\n", " \n  \n# comment [\n" } )
        for( bool stray : { false, true } )
        {
          if( gap == -1 && white != " " ) continue;
          if( H().mine() ) triangulations( { c }, gap, white, stray );
        }
  }
  for( auto&& c : complexes ) for( auto&& d : complexes )
    for( int gap : { -2, -1 } )
      for( bool stray : { false, true } )
        if( H().mine() ) triangulations( { c, d }, gap, "\n", stray );
  H().setCase( "triangulations" );
  H().state();
  rejected( "triangulation-missing", [&] { io::LexicographicTriangulationReader r; std::vector<Complex> K; r( H().scratch + "/missing.txt", K ); } );
  rejected( "triangulation-open", [&] { io::LexicographicTriangulationReader r; std::vector<Complex> K; std::istringstream in( "a=[[1,2],\nb=[[1,2]]\n" ); r( in, K ); } );
  // Needs to terminate
  for( std::string t : { "a=[1,2,3]", "a=[x[1,2]]", "a=[[1,2];[2,3]]", "a=[]", "a=[[[1,2]]]" } )
  {
    H().setCase( "triangulations " + t );
    H().state();
    H().guarded( "triangulation-invalid", [&] { io::LexicographicTriangulationReader r; std::vector<Complex> K; std::istringstream in( t + "\n" ); r( in, K ); H().step(); } );
  }
}

// Lines and points ----------------------------------------------------

static void linesAndPoints()
{
  for( unsigned n = 0; n <= 4; n++ )
    for( unsigned mask = 0; mask < ( 1u << ( n * ( n - 1 ) / 2 ) ); mask++ )
      for( unsigned d = 2; d <= 4; d++ ) for( bool labels : { false, true } ) for( bool triangle : { false, true } )
      {
        if( !H().mine() ) continue;
        std::vector<std::vector<double>> p;
        for( unsigned i = 0; i < n; i++ ) { std::vector<double> x; for( unsigned j = 0; j < d; j++ ) x.push_back( 10.0 * i + j - 0.5 ); p.push_back( x ); }
        std::vector<Simplex> s;
        std::vector<std::pair<unsigned, unsigned>> edges;
        for( unsigned i = 0; i < n; i++ ) s.push_back( Simplex( i ) );
        unsigned k = 0;
        for( unsigned i = 0; i < n; i++ ) for( unsigned j = i + 1; j < n; j++ ) if( mask >> k++ & 1 ) { s.push_back( Simplex( { i, j } ) ); edges.push_back( { i, j } ); }
        if( triangle && n > 2 ) s.push_back( Simplex( { 0u, 1u, 2u } ) );
        H().setCase( cat( "lines and points n=", n, " edges=", mask, " d=", d, " labels=", labels ) );
        H().state();
        H().guarded( "lines", [&]
        {
          Complex K( s.begin(), s.end() );
          io::LinesAndPoints w;
          w.addVertexLabels( labels );
          H().check( w.addVertexLabels() == labels, "lines-configuration", "configuration is not stored" );
          std::ostringstream out;
          w( out, K, p );
          auto name = H().scratch + cat( "/lines-", H().shard, ".txt" );
          w( name, K, p );
          std::ifstream in( name );
          std::stringstream copy;
          copy << in.rdbuf();
          H().check( copy.str() == out.str(), "lines-file", "contents of file and stream differ" );
          // Blocks are separated by two empty lines
          std::istringstream stream( out.str() );
          std::string line;
          std::vector<std::string> lines;
          while( std::getline( stream, line ) ) lines.push_back( line );
          auto parse = [] ( const std::string& l ) { std::istringstream i( l ); std::vector<double> v; double x; while( i >> x ) v.push_back( x ); return v; };
          std::size_t at = 0;
          bool ok = lines.size() == n + 2 + 3 * edges.size();
          auto coordinates = [&] ( unsigned i ) { return std::vector<double>( p[i].begin(), p[i].begin() + std::min( d, 3u ) ); };
          std::set<std::vector<double>> vertices, expected;
          for( unsigned i = 0; ok && i < n; i++ )
          {
            auto e = coordinates( i );
            if( labels ) e.push_back( i );
            expected.insert( e );
            vertices.insert( parse( lines[at++] ) );
          }
          ok = ok && vertices == expected && lines[at].empty() && lines[at + 1].empty();
          at += 2;
          std::set<std::set<std::vector<double>>> a, b;
          for( std::size_t i = 0; ok && i < edges.size(); i++ )
          {
            a.insert( { coordinates( edges[i].first ), coordinates( edges[i].second ) } );
            b.insert( { parse( lines[at] ), parse( lines[at + 1] ) } );
            ok = lines[at + 2].empty();
            at += 3;
          }
          H().check( ok && a == b, "lines", "unexpected output\n" + out.str() );
          H().step();
          if( n )
          {
            std::vector<std::vector<double>> q( n, std::vector<double>( 1 ) );
            rejected( "lines-dimension", [&] { std::ostringstream o; w( o, K, q ); } );
          }
        } );
        H().trace();
      }
}

// Functions -----------------------------------------------------------

static Content function( const std::vector<double>& f, double (*g)( double, double ) )
{
  Content e;
  for( unsigned i = 0; i < f.size(); i++ )
  {
    e[{ i }] = f[i];
    if( i + 1 < f.size() ) e[{ i, i + 1 }] = g( f[i], f[i + 1] );
  }
  return e;
}

template <class R> static void functionMatrix( const std::string& name, const std::vector<double>& f )
{
  aleph::topology::BoundaryMatrix<R> M;
  std::vector<double> v = { 7, 8 };
  io::loadFunction( name, M, v );
  std::size_t n = 2 * f.size() - 1;
  H().check( v.size() == n && std::size_t( M.getNumColumns() ) == n, "function-size", "wrong number of simplices" );
  if( v.size() != n || std::size_t( M.getNumColumns() ) != n ) return;
  std::map<std::size_t, std::vector<std::size_t>> adjacent;
  bool ok = true;
  for( std::size_t j = 0; j < n; j++ )
  {
    auto c = M.getColumn( typename aleph::topology::BoundaryMatrix<R>::Index( j ) );
    if( j && v[j] < v[j - 1] ) ok = false;
    if( c.empty() ) adjacent[j];
    else if( c.size() == 2 && c[0] < j && c[1] < j && v[j] == std::max( v[c[0]], v[c[1]] ) )
    {
      adjacent[c[0]].push_back( c[1] );
      adjacent[c[1]].push_back( c[0] );
    }
    else ok = false;
  }
  H().check( ok && adjacent.size() == f.size(), "function-matrix", "boundary matrix is no filtration of the function" );
  if( !ok || adjacent.size() != f.size() ) return;
  // The graph needs to be a path along which the values of the function occur
  std::vector<double> path;
  std::size_t current = n, last = n;
  for( auto&& p : adjacent ) if( p.second.size() < 2 ) { current = p.first; break; }
  while( current < n && path.size() <= f.size() )
  {
    path.push_back( v[current] );
    std::size_t next = n;
    for( auto&& w : adjacent[current] ) if( w != last ) next = w;
    last    = current;
    current = next;
  }
  auto reversed = path;
  std::reverse( reversed.begin(), reversed.end() );
  H().check( path == f || reversed == f, "function-matrix", "boundary matrix does not describe the function" );
  H().step();
}

static void functions()
{
  static const double values[] = { -1, 0.5, 3 };
  std::vector<std::vector<double>> all;
  for( unsigned n = 1; n <= ( H().thorough ? 7u : 6u ); n++ )
    forAllVectors( n, n > 5 ? 2 : 3, [&] ( const std::vector<unsigned>& v ) { std::vector<double> f; for( unsigned i : v ) f.push_back( values[i] ); all.push_back( f ); } );
  // Families of longer functions
  for( unsigned n = 7; n <= ( H().thorough ? 80u : 40u ); n++ ) for( unsigned kind = 0; kind < 4; kind++ )
  {
    std::vector<double> f;
    for( unsigned i = 0; i < n; i++ ) f.push_back( kind == 0 ? i : kind == 1 ? double( n - i ) / 2 : kind == 2 ? double( i * 37 % 101 ) - 50 : double( i / 3 % 2 ) );
    all.push_back( f );
  }
  auto text = [] ( const std::vector<double>& f, const char* separator ) { std::ostringstream s; for( std::size_t i = 0; i < f.size(); i++ ) s << ( i ? separator : "" ) << f[i]; return s.str(); };
  for( std::size_t k = 0; k < all.size(); k++ )
  {
    if( !H().mine() ) continue;
    auto&& f = all[k];
    for( const char* separator : { " ", "\t", "   ", "\n" } )
    {
      auto t = text( f, separator );
      H().setCase( "function " + t );
      H().state();
      H().guarded( "function", [&]
      {
        for( bool newline : { false, true } )
        {
          auto name = file( t + ( newline ? "\n" : "" ), ".txt" );
          functionMatrix<aleph::topology::representations::Vector<unsigned>>( name, f );
          functionMatrix<aleph::topology::representations::Set<unsigned>>( name, f );
        }
        if( *separator == '\n' ) return;
        // Several functions, with and without a newline at the end
        std::vector<std::vector<double>> group = { f, all[( k * 7 + 3 ) % all.size()], all[( k * 5 + 1 ) % all.size()] };
        for( unsigned count = 1; count <= 3; count++ ) for( bool newline : { false, true } ) for( auto g : { maximum, minimum } )
        {
          std::string s;
          for( unsigned i = 0; i < count; i++ ) s += text( group[i], separator ) + ( i + 1 < count || newline ? "\n" : "" );
          auto name = file( s, ".txt" );
          auto K = g == maximum ? io::loadFunctions<Complex>( name ) : io::loadFunctions<Complex>( name, g );
          H().check( K.size() == count, "functions-count", cat( "number of functions is ", K.size() ) );
          for( std::size_t i = 0; i < std::min<std::size_t>( K.size(), count ); i++ ) compare( K[i], function( group[i], g ), "functions" );
        }
        compare( io::loadFunction<Complex>( f.begin(), f.end(), minimum ), function( f, minimum ), "function-range" );
        compare( io::loadFunction<Complex>( f.begin(), f.end(), maximum ), function( f, maximum ), "function-range" );
      } );
      H().trace();
    }
  }
  H().setCase( "functions" );
  H().state();
  rejected( "function-empty", [&] { std::vector<double> v; aleph::topology::BoundaryMatrix<aleph::topology::representations::Vector<unsigned>> M; io::loadFunction( file( "", ".txt" ), M, v ); } );
  rejected( "function-missing", [&] { std::vector<double> v; aleph::topology::BoundaryMatrix<aleph::topology::representations::Vector<unsigned>> M; io::loadFunction( H().scratch + "/missing.txt", M, v ); } );
  rejected( "functions-missing", [&] { io::loadFunctions<Complex>( H().scratch + "/missing.txt" ); } );
}

// Spectra -------------------------------------------------------------

static void spectra()
{
  static io::FlexSpectrumReader reused;
  static const double values[] = { 1, 0.5, 4 };
  std::vector<std::vector<unsigned>> all;
  for( unsigned n = 0; n <= 5; n++ ) forAllVectors( n, 3, [&] ( const std::vector<unsigned>& v ) { all.push_back( v ); } );
  for( unsigned n = 6; n <= 40; n++ )
  {
    std::vector<unsigned> v;
    for( unsigned i = 0; i < n; i++ ) v.push_back( i * i % 7 % 3 );
    all.push_back( v );
  }
  for( auto&& v : all )
    {
      unsigned n = unsigned( v.size() );
      for( bool normalize : { false, true } ) for( unsigned layout = 0; layout < 3; layout++ )
      {
        if( !H().mine() ) continue;
        std::ostringstream s;
        std::vector<double> f;
        double total = 0;
        if( layout == 1 ) s << "# header\nx y\n\n";
        for( unsigned i = 0; i < n; i++ )
        {
          f.push_back( values[v[i]] );
          total += f.back();
          s << 1000.5 + 2 * i << ( layout == 2 ? "\t" : " " ) << f.back() << "\n";
          if( layout == 1 ) s << "-\n";
        }
        H().setCase( cat( "spectrum normalize=", normalize, "\n", s.str() ) );
        H().state();
        H().guarded( "spectrum", [&]
        {
          if( normalize ) for( auto&& y : f ) y /= total;
          auto name = file( s.str(), ".txt" );
          io::FlexSpectrumReader fresh;
          for( auto r : { &fresh, &reused } )
          {
            normalize ? r->normalize() : r->normalize( false );
            H().check( static_cast<const io::FlexSpectrumReader*>( r )->normalize() == normalize, "spectrum-configuration", "configuration is not stored" );
            Complex K = { Complex::ValueType( 9u, 3.0 ) };
            ( *r )( name, K );
            compare( K, function( f, minimum ), r == &fresh ? "spectrum" : "spectrum-reuse", -1 );
            auto x = r->getIndexToValueMap(), y = r->getIndexToIntensityMap();
            bool ok = x.size() == n && y.size() == n;
            for( unsigned i = 0; ok && i < n; i++ ) ok = x.count( i ) && y.count( i ) && close( x[i], 1000.5 + 2 * i ) && close( y[i], f[i] );
            H().check( ok, "spectrum-values", "values of the spectrum are wrong" );
          }
        } );
        H().trace();
      }
    }
  H().setCase( "spectra" );
  H().state();
  rejected( "spectrum-missing", [&] { io::FlexSpectrumReader r; Complex K; r( H().scratch + "/missing.txt", K ); } );
}

// HDF5 ----------------------------------------------------------------

static void hdf5()
{
  static io::HDF5SimpleDataSpaceReader reused;
  static io::SimplicialComplexReader generic;
  H5::Exception::dontPrint();
  const H5::PredType* types[] = { &H5::PredType::IEEE_F64LE, &H5::PredType::IEEE_F64BE, &H5::PredType::IEEE_F32LE, &H5::PredType::IEEE_F32BE };
  static const double values[] = { -1, 0.5, 3 };
  unsigned k = 0;
  std::vector<std::pair<unsigned, unsigned>> grids = { { 7, 5 }, { 12, 3 }, { 3, 12 }, { 10, 10 }, { 1, 20 }, { 20, 1 }, { 5, 7 }, { 11, 9 } };
  for( unsigned h = 1; h <= 4; h++ ) for( unsigned w = 1; w <= 4; w++ ) grids.push_back( { h, w } );
  for( auto&& size_ : grids )
  {
    unsigned h = size_.first, w = size_.second;
    unsigned n = h * w;
    std::vector<std::vector<double>> all;
    if( n <= 4 ) forAllVectors( n, 3, [&] ( const std::vector<unsigned>& v ) { std::vector<double> x; for( unsigned i : v ) x.push_back( values[i] ); all.push_back( x ); } );
    else if( n <= 6 || H().thorough ) { if( n <= 9 ) forAllVectors( n, 2, [&] ( const std::vector<unsigned>& v ) { std::vector<double> x; for( unsigned i : v ) x.push_back( values[2 * i] ); all.push_back( x ); } ); }
    std::vector<double> x;
    for( unsigned i = 0; i < n; i++ ) x.push_back( i );
    all.push_back( x );
    for( unsigned i = 0; i < n; i++ ) x[i] = double( i * 37 % 101 ) - 50;
    all.push_back( x );
    for( unsigned i = 0; i < n; i++ ) x[i] = double( n - i ) / 4;
    all.push_back( x );
    for( auto&& d : all ) for( unsigned type = 0; type < 4; type++ ) for( unsigned group = 0; group < 2; group++ )
    {
      if( n > 2 && ++k % 3 ) continue;
      if( !H().mine() ) continue;
      H().setCase( cat( "HDF5 ", h, "x", w, " ", str( d ), " type=", type, " group=", group ) );
      H().state();
      H().guarded( "hdf5", [&]
      {
        auto name = H().scratch + cat( "/file-", H().shard, ".h5" );
        {
          H5::H5File f( name, H5F_ACC_TRUNC );
          hsize_t size[] = { h, w };
          H5::DataSpace space( 2, size );
          if( group ) f.createGroup( "/data" );
          auto set = f.createDataSet( group ? "/data/field" : "/YField", *types[type], space );
          set.write( d.data(), H5::PredType::NATIVE_DOUBLE );
        }
        Content e, m;
        auto add = [&] ( std::vector<unsigned> v )
        {
          std::sort( v.begin(), v.end() );
          double a = d[v[0]], b = d[v[0]];
          for( unsigned i : v ) { a = std::max( a, d[i] ); b = std::min( b, d[i] ); }
          e[v] = a;
          m[v] = b;
        };
        for( unsigned y = 0; y < h; y++ ) for( unsigned x = 0; x < w; x++ )
        {
          unsigned i = y * w + x;
          add( { i } );
          if( x + 1 < w ) add( { i, i + 1 } );
          if( y + 1 < h ) add( { i, i + w } );
          if( x + 1 < w && y > 0 )
          {
            add( { i, i - w + 1 } );
            add( { i, i + 1, i - w + 1 } );
            add( { i, i - w, i - w + 1 } );
          }
        }
        io::HDF5SimpleDataSpaceReader fresh;
        for( auto r : { &fresh, &reused } )
        {
          if( group || r == &reused ) { r->setGroupName( group ? "/data" : "/" ); r->setDataSetName( group ? "field" : "YField" ); }
          Complex K;
          ( *r )( name, K );
          compare( K, e, r == &fresh ? "hdf5" : "hdf5-reuse" );
          ( *r )( name, K, minimum );
          compare( K, m, "hdf5-functor" );
        }
        if( !group )
        {
          Complex K;
          generic( name, K );
          compare( K, e, "hdf5-generic" );
          generic( name, K, minimum );
          compare( K, m, "hdf5-generic-functor" );
        }
      } );
      H().trace();
    }
  }
}

void explore()
{
  plyFiles();
  plyBinaryFiles();
  vtkFiles();
  triangulationFiles();
  linesAndPoints();
  functions();
  spectra();
  hdf5();
}
