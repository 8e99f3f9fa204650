// Reading and writing of all small diagrams, and all truncated files.

#include "pd.hh"

#include <aleph/persistenceDiagrams/io/JSON.hh>
#include <aleph/persistenceDiagrams/io/Raw.hh>

using namespace vf;

template <class T> std::vector<std::pair<T, T>> points( const aleph::PersistenceDiagram<T>& D )
{
  std::vector<std::pair<T, T>> r;
  for( auto&& p : D ) r.push_back( { p.x(), p.y() } );
  return r;
}

template <class T> using Points = std::vector<std::pair<T, T>>;

template <class T> std::string show( const Points<T>& P )
{
  std::ostringstream s;
  s.precision( 17 );
  for( auto&& p : P ) s << "(" << p.first << "," << p.second << ")";
  return s.str();
}

template <class T> aleph::PersistenceDiagram<T> make( const Points<T>& P, std::size_t dimension )
{
  aleph::PersistenceDiagram<T> D;
  D.setDimension( dimension );
  for( auto&& p : P ) D.add( p.first, p.second );
  return D;
}

static void write( const std::string& name, const std::string& text )
{
  std::ofstream out( name, std::ios::binary );
  out << text;
}

template <class T> void json( const std::vector<Points<T>>& all, std::size_t dimension, bool precise, bool crlf, const char* name )
{
  std::string s;
  for( auto&& p : all ) s += "[" + show( p ) + "] ";
  H().setCase( cat( name, " json dimension=", dimension, " precise=", precise, " ", s ) );
  H().state();
  H().guarded( "json", [&]
  {
    auto file = H().scratch + cat( "/diagrams-", H().shard, ".json" );
    std::stringstream stream;
    if( precise ) stream.precision( std::numeric_limits<T>::max_digits10 );
    stream << "{\"diagrams\": [";
    for( std::size_t i = 0; i < all.size(); i++ )
    {
      if( i ) stream << ",\n";
      auto D = make( all[i], dimension + i );
      if( i % 3 == 0 ) aleph::io::writeJSON( stream, D );
      else if( i % 3 == 1 ) aleph::io::writeJSON( stream, D, "name" );
      else aleph::io::writeJSON( stream, D, "name", { { "key", "value" }, { "second", "other" } } );
    }
    stream << "]}";
    write( file, stream.str() );
    auto occurrences = [&] ( const std::string& what )
    {
      std::size_t n = 0;
      auto t = stream.str();
      for( auto p = t.find( what ); p != std::string::npos; p = t.find( what, p + 1 ) ) n++;
      return n;
    };
    auto full = all.size() / 3, named = all.size() - ( all.size() + 2 ) / 3;
    for( const char* what : { "\"key\"", "\"value\"", "\"second\"", "\"other\"" } )
      H().check( occurrences( what ) == full, "json-attributes", cat( what, " should occur ", full, " times, got ", occurrences( what ) ) );
    H().check( occurrences( "\"name\"" ) >= named, "json-attributes", cat( "name should occur ", named, " times, got ", occurrences( "\"name\"" ) ) );
    for( auto&& result : { aleph::io::readJSON<T>( stream ), aleph::io::readJSON<T>( file ) } )
    {
      H().step( 2 );
      H().check( result.size() == all.size(), "json-number", cat( "number of diagrams should be ", all.size(), ", got ", result.size() ) );
      for( std::size_t i = 0; i < std::min( all.size(), result.size() ); i++ )
      {
        H().check( points( result[i] ) == all[i], "json-points", cat( "points of diagram ", i, " are ", show( points( result[i] ) ) ) );
        H().check( result[i].dimension() == dimension + i, "json-dimension", cat( "dimension of diagram ", i, " is ", result[i].dimension() ) );
        std::size_t betti = 0;
        for( auto&& p : all[i] ) betti += p.second == std::numeric_limits<T>::infinity();
        H().check( result[i].betti() == betti, "json-betti", cat( "Betti number of diagram ", i, " should be ", betti, ", got ", result[i].betti() ) );
      }
    }
    if( all.size() == 1 && !precise )
    {
      // Only one diagram
      aleph::io::writeJSON( file, make( all[0], dimension ), "single" );
      std::ifstream in( file );
      std::string text( ( std::istreambuf_iterator<char>( in ) ), std::istreambuf_iterator<char>() );
      std::istringstream wrapped( "{ \"diagrams\": [ " + text + " ] }" );
      auto result = aleph::io::readJSON<T>( wrapped );
      H().step();
      H().check( result.size() == 1 && points( result[0] ) == all[0] && result[0].dimension() == dimension, "json-file", "diagram written to a file is wrong" );
    }
    H().trace();
    H().sample();
  } );
}

// Every proper prefix of a valid file has to be rejected
template <class T> void truncated( const Points<T>& P, const char* name )
{
  std::ostringstream out;
  out << "{\"diagrams\":[";
  aleph::io::writeJSON( out, make( P, 1 ), "name" );
  out << "]}";
  auto text = out.str();
  for( std::size_t n = 0; n < text.size(); n++ )
  {
    if( !H().mine() ) continue;
    H().setCase( cat( name, " truncated ", show( P ), " length=", n ) );
    H().state();
    bool thrown = false;
    std::istringstream in( text.substr( 0, n ) );
    try { aleph::io::readJSON<T>( in ); } catch( std::exception& ) { thrown = true; }
    H().step();
    H().check( thrown, "json-truncated", "truncated file is accepted" );
    H().trace();
  }
}

// Wrong sizes and Betti numbers have to be rejected
template <class T> void inconsistent( const Points<T>& P, const char* name )
{
  std::size_t betti = 0;
  for( auto&& p : P ) betti += p.second == std::numeric_limits<T>::infinity();
  for( std::size_t b = 0; b <= 4; b++ )
    for( std::size_t n = 0; n <= 4; n++ )
    {
      if( !H().mine() ) continue;
      H().setCase( cat( name, " counts ", show( P ), " betti=", b, " size=", n ) );
      H().state();
      std::stringstream s;
      s << "{\"diagrams\":[{\"betti\":" << b << ",\"dimension\":1,\"size\":" << n << ",\"diagram\":[";
      for( std::size_t i = 0; i < P.size(); i++ ) s << ( i ? "," : "" ) << "[\"" << P[i].first << "\",\"" << P[i].second << "\"]";
      s << "]}]}";
      bool thrown = false;
      try { aleph::io::readJSON<T>( s ); } catch( std::exception& ) { thrown = true; }
      H().step();
      H().check( thrown == ( b != betti || n != P.size() ), "json-counts", thrown ? "valid file is rejected" : "file with wrong counts is accepted" );
      H().trace();
    }
}

template <class T> void raw( const Points<T>& P, const char* name )
{
  // What is placed before every line: nothing, an empty line, a comment
  forAllVectors( P.size() + 1, 3, [&] ( const std::vector<unsigned>& before )
  {
    for( unsigned variant = 0; variant < 4; variant++ )
    {
      std::ostringstream out;
      out.precision( std::numeric_limits<T>::max_digits10 );
      for( std::size_t i = 0; i <= P.size(); i++ )
      {
        if( before[i] == 1 ) out << "\n";
        if( before[i] == 2 ) out << "# comment 1 2\n";
        if( i == P.size() ) break;
        const char* separators[] = { " ", "\t", "   ", " \t" };
        if( variant == 2 ) out << "  ";
        out << P[i].first << separators[variant] << P[i].second;
        if( variant == 3 ) out << "\t";
        if( i + 1 < P.size() || before[i+1] || variant != 1 ) out << "\n";
      }
      H().setCase( cat( name, " raw ", show( P ), " ", str( before ), " variant=", variant ) );
      H().state();
      H().guarded( "raw", [&]
      {
        auto file = H().scratch + cat( "/diagram-", H().shard, ".txt" );
        write( file, out.str() );
        auto D = aleph::io::load<T>( file );
        H().step();
        H().check( points( D ) == P, "raw-points", cat( "points are ", show( points( D ) ) ) );
        H().trace();
      } );
    }
  } );
  // Output of a diagram
  H().setCase( cat( name, " output ", show( P ) ) );
  H().guarded( "raw-output", [&]
  {
    auto file = H().scratch + cat( "/diagram-", H().shard, ".txt" );
    std::ostringstream out;
    out.precision( std::numeric_limits<T>::max_digits10 );
    out << make( P, 0 );
    write( file, out.str() );
    auto D = aleph::io::load<T>( file );
    H().step();
    H().check( points( D ) == P, "raw-output", cat( "points of a written diagram are ", show( points( D ) ) ) );
  } );
}

template <class T> void all( const Points<T>& alphabet, const Points<T>& exact, std::size_t n, const char* name )
{
  std::vector<Points<T>> small;
  for( std::size_t k = 0; k <= n; k++ )
    forAllVectors( k, unsigned( alphabet.size() ), [&] ( const std::vector<unsigned>& x )
    {
      Points<T> p;
      for( auto i : x ) p.push_back( alphabet[i] );
      if( k <= 2 && std::all_of( x.begin(), x.end(), [] ( unsigned i ) { return i < 4; } ) ) small.push_back( p );
      if( !H().mine() ) return;
      json<T>( { p }, k, false, false, name );
      if( k <= 2 ) raw<T>( p, name );
    } );
  for( auto&& p : small ) for( auto&& q : small )
  {
    if( !H().mine() ) continue;
    json<T>( { p, q }, 1, false, false, name );
    json<T>( { p, q, p, {} }, 0, false, false, name );
  }
  for( std::size_t k = 0; k <= 2; k++ )
    forAllVectors( k, unsigned( exact.size() ), [&] ( const std::vector<unsigned>& x )
    {
      if( !H().mine() ) return;
      Points<T> p;
      for( auto i : x ) p.push_back( exact[i] );
      json<T>( { p }, k, true, false, name );
      raw<T>( p, name );
    } );
  for( auto&& p : small ) if( p.size() <= 2 ) inconsistent<T>( p, name );
  if( small.size() > 7 ) { truncated<T>( small[0], name ); truncated<T>( small[7], name ); }
}

// Families of larger diagrams, and files with many diagrams
static void large()
{
  auto family = bigDiagrams( H().thorough ? 60 : 24 );
  for( std::size_t i = 0; i < family.size(); i++ )
  {
    if( !H().mine() ) continue;
    auto P = family[i].second;
    if( i % 2 ) for( std::size_t j = 0; j < P.size(); j += 4 ) P[j].second = INF;
    json<double>( { P }, i, false, false, "double" );
    std::vector<Pairs> many;
    for( std::size_t j = 0; j < i % 30; j++ ) many.push_back( family[j].second );
    json<double>( many, 7, false, false, "double" );
    for( unsigned variant = 0; variant < 2; variant++ )
    {
      H().setCase( cat( "raw ", family[i].first, " variant=", variant ) );
      H().state();
      H().guarded( "raw", [&]
      {
        auto file = H().scratch + cat( "/diagram-", H().shard, ".txt" );
        std::ostringstream out;
        for( std::size_t j = 0; j < P.size(); j++ )
        {
          if( variant && j % 3 == 0 ) out << ( j % 2 ? "\n" : "# comment\n" );
          out << P[j].first << "\t" << P[j].second << "\n";
        }
        write( file, out.str() );
        auto D = aleph::io::load<double>( file );
        H().step();
        H().check( points( D ) == P, "raw-points", cat( "points are ", show<double>( points( D ) ) ) );
        H().trace();
      } );
    }
  }
}

void explore()
{
  large();
  const double I = std::numeric_limits<double>::infinity();
  const float  J = std::numeric_limits<float>::infinity();
  all<double>( { { 0, 1 }, { -1.5, I }, { 2, 2 }, { 0.25, 1e-5 }, { -I, 3 }, { 1e10, 2.5e20 } }, { { 1.0 / 3, 0.1 }, { 1e-300, I }, { 12345678.9, -1.0 / 7 } }, H().thorough ? 5 : 4, "double" );
  all<float>( { { 0.f, 1.f }, { -1.5f, J }, { 2.f, 2.f }, { 0.25f, 1e-5f } }, { { 1.f / 3, 0.1f }, { 1e-30f, J } }, 3, "float" );
  all<int>( { { 0, 1 }, { -1, 7 }, { 2, 2 }, { 100000, 123456789 } }, { { -123456789, 5 } }, 3, "int" );
}
